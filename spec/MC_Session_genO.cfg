INIT Init
NEXT Next
CONSTANTS K = 5
 NB = 2
 NO = 4
 MaxLen = 4
 MaxC = 40
 Scalars <- GenScalars
 Depth = 24
 Mode = "genO"
INVARIANTS NoDuplicates Dump
CHECK_DEADLOCK FALSE
