INIT Init
NEXT Next
CONSTANTS NV = 4
 MaxVal = 3
 NG = 4
INVARIANTS SwapCount Graphs
CHECK_DEADLOCK FALSE
