INIT Init
NEXT Next
CONSTANT N = 2
INVARIANTS Multiplicative Involutions Rep DFactor
CHECK_DEADLOCK FALSE
