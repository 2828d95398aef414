INIT Init
NEXT Next
CONSTANTS K = 6
 NB = 4
 NO = 0
 MaxLen = 4
 MaxC = 40
 Scalars <- GenScalars
 Depth = 24
 Mode = "genB"
INVARIANTS NoDuplicates Dump
CHECK_DEADLOCK FALSE
