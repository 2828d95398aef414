----------------------------- MODULE MC_Explore -----------------------------
(* The cached exploration answers every query as a fresh computation would, after every history of queries; earlier
   entries of the cache are never altered. In generation mode the histories are written out and replayed. *)
EXTENDS Explore, Json, IOUtils, Randomization
CONSTANTS Mode, Depth
VARIABLES c, hist, prev
P(o, l) == Str("P", 0, o, l)
H == <<[s |-> P(<<"X", "X">>, <<0, 1>>), c |-> 1], [s |-> P(<<"Y", "Y">>, <<0, 1>>), c |-> 1], [s |-> P(<<"Z">>, <<0>>), c |-> 2],
       [s |-> P(<<"Z">>, <<1>>), c |-> 3]>>
U == <<P(<<"X">>, <<0>>), P(<<"Y">>, <<0>>), P(<<"Z">>, <<0>>), P(<<"X">>, <<1>>), P(<<"Z", "Z">>, <<0, 1>>), P(<<"X", "Y">>, <<0, 1>>),
       P(<<"Y", "X">>, <<0, 1>>), IdStr("P")>>
K == IF Mode = "check" THEN 6 ELSE 12     \* in generation the indices refer to a universe that the driver chooses
Seqs == IF Mode = "check" THEN {q \in UNION {[1 .. n -> 1 .. K] : n \in 0 .. 2} : \A i, j \in 1 .. Len(q) : i # j => q[i] # q[j]}
        ELSE {}
Bs(q) == [i \in 1 .. Len(q) |-> U[q[i]]]
Init == c = Empty(H) /\ hist = <<>> /\ prev = Empty(H)
Check == /\ Len(hist) < Depth
         /\ \E q \in Seqs : \E A \in {<<1, {}>>, <<0, {0}>>, <<0, {1}>>} :
              /\ c' = ExploreAll(H, c, Bs(q)) /\ prev' = c
              /\ hist' = Append(hist, [q |-> q, all |-> A[1], A |-> A[2]])
(* generation: queries grow, shrink, repeat and overlap *)
RandSeq(n) == LET S == RandomSubset(n, 1 .. K) IN SetToSeq(S)
Gen == /\ Len(hist) < Depth
       /\ \E k \in {RandomElement({"new", "new", "again", "part", "more", "empty"})} :
          \E q \in {IF k = "empty" THEN <<>>
                    ELSE IF hist = <<>> \/ k = "new" THEN RandSeq(RandomElement(1 .. 6))
                    ELSE LET o == hist[RandomElement(1 .. Len(hist))].q IN
                         IF k = "again" THEN Reverse(o)
                         ELSE IF k = "part" THEN SubSeq(o, 1, Len(o) \div 2)
                         ELSE SetToSeq(ToSet(o) \cup RandomSubset(2, 1 .. K))} :
          hist' = Append(hist, [q |-> q, all |-> RandomElement({1, 1, 0}), A |-> RandomSubset(RandomElement(0 .. 3), 0 .. 3)])
       /\ UNCHANGED <<c, prev>>
Next == IF Mode = "check" THEN Check ELSE Gen
Correct == hist # <<>> => LET h == hist[Len(hist)] IN
    Mode = "check" => Answer(H, c, Bs(h.q), h.all = 1, h.A) = Direct(H, Bs(h.q), h.all = 1, h.A)
Prefix == /\ SubSeq(c.eb, 1, Len(prev.eb)) = prev.eb /\ SubSeq(c.xb, 1, Len(prev.xb)) = prev.xb
          /\ \A h \in 1 .. Len(H) : prev.tab[h] \subseteq c.tab[h]
NoDups == \A i, j \in 1 .. Len(c.eb) : i # j => c.eb[i] # c.eb[j]
View == <<Len(hist), c, prev, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>
Dump == (Mode # "check" /\ Len(hist) = Depth) =>
            JsonSerialize(IOEnv.GEN_DIR \o "/" \o ToString(RandomElement(1 .. 1000000000)) \o ".json", hist)
=============================================================================
