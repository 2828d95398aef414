INIT Init
NEXT Next
INVARIANTS Within StopsClosed Dimension Fixpoint Hermitian Jacobi
CHECK_DEADLOCK FALSE
