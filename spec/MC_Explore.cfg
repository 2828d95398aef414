INIT Init
NEXT Next
CONSTANTS Mode = "check"
 Depth = 3
VIEW View
INVARIANTS Correct Prefix NoDups
CHECK_DEADLOCK FALSE
