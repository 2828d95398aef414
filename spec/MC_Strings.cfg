INIT Init
NEXT Next
CONSTANTS Alphabet = {"1", "1.0", "1j", "I", "X", "A", "B", "D", "C", "CDag", "0", "2"}
 MaxTok = 4
INVARIANTS RoundTrip Deterministic Asked HermitianMajorana Spellings
CHECK_DEADLOCK FALSE
