INIT Init
NEXT Next
CONSTANTS K = 2
 NB = 1
 NO = 1
 MaxLen = 2
 MaxC = 2
 Scalars <- ImagScalars
 Depth = 0
 Mode = "check"
INVARIANTS NoDuplicates LookupAgrees Frame
CHECK_DEADLOCK FALSE
