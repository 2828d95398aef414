INIT Init
NEXT Next
INVARIANTS Listing Metric Compose
CHECK_DEADLOCK FALSE
