INIT Init
NEXT Next
CONSTANTS Kind = "simple"
 Steps = 2
INVARIANTS BestOK ExpandOK CacheOK Closed StopOK
CHECK_DEADLOCK FALSE
