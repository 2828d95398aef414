INIT Init
NEXT Next
CONSTANTS T = "P"
 N = 2
INVARIANTS TypeOK Unit Square Assoc Hermitian Represents DenActs Jacobi Halves
CHECK_DEADLOCK FALSE
