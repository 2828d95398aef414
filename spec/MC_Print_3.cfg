INIT Init
NEXT Next
CONSTANT L = 3
INVARIANTS Injective Identity EveryLabel NameOK DecimalOK FilterOK
CHECK_DEADLOCK FALSE
