INIT Init
NEXT Next
CONSTANTS N = 2
INVARIANTS Homomorphism Acts CAR HermitianF
CHECK_DEADLOCK FALSE
