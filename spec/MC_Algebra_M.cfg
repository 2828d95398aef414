INIT Init
NEXT Next
CONSTANTS T = "M"
 N = 2
INVARIANTS TypeOK Unit Square Assoc Hermitian Represents DenActs Jacobi Halves
CHECK_DEADLOCK FALSE
