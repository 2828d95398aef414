INIT Init
NEXT Next
CONSTANTS Kind = "ci"
 Steps = 3
INVARIANTS BestOK ExpandOK CacheOK Closed StopOK
CHECK_DEADLOCK FALSE
