INIT Init
NEXT Next
INVARIANTS Shrinks OrderFree Within Known KnownM Orbits
CHECK_DEADLOCK FALSE
