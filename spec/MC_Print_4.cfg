INIT Init
NEXT Next
CONSTANT L = 4
INVARIANTS Injective Identity EveryLabel NameOK DecimalOK FilterOK
CHECK_DEADLOCK FALSE
