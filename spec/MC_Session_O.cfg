INIT Init
NEXT Next
CONSTANTS K = 2
 NB = 1
 NO = 2
 MaxLen = 2
 MaxC = 1
 Scalars <- SmallScalars
 Depth = 0
 Mode = "check"
INVARIANTS NoDuplicates LookupAgrees Frame
CHECK_DEADLOCK FALSE
