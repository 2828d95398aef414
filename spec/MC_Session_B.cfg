INIT Init
NEXT Next
CONSTANTS K = 3
 NB = 3
 NO = 0
 MaxLen = 2
 MaxC = 2
 Scalars <- SmallScalars
 Depth = 0
 Mode = "check"
INVARIANTS NoDuplicates LookupAgrees Frame
CHECK_DEADLOCK FALSE
