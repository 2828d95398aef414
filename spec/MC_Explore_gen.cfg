INIT Init
NEXT Next
CONSTANTS Mode = "gen"
 Depth = 9
INVARIANTS Dump
CHECK_DEADLOCK FALSE
