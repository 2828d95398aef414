INIT Init
NEXT Next
CONSTANTS N = 3
INVARIANTS ProductOK WordOK TraceOK PermOK RdmOK AdOK
CHECK_DEADLOCK FALSE
