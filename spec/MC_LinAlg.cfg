INIT Init
NEXT Next
CONSTANTS D = 3
 Ents <- SmallEnts
INVARIANTS RankRight Certificates
CHECK_DEADLOCK FALSE
