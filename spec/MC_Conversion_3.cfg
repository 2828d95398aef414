INIT Init
NEXT Next
CONSTANTS N = 3
INVARIANTS Homomorphism Acts CAR HermitianF
CHECK_DEADLOCK FALSE
