INIT Init
NEXT Next
CONSTANT N = 3
INVARIANTS Multiplicative Involutions Rep DFactor
CHECK_DEADLOCK FALSE
