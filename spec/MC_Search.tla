----------------------------- MODULE MC_Search -----------------------------
(* The search machines with an arbitrary solver: each step expands the basis, records an operator of it with some norm, and
   truncates to some part of it. One cache serves all expansions. Checked: the reported best is the first record with the
   smallest norm; a recorded basis is the expansion of the truncation before it; the cache answers as a fresh computation;
   a search of the kind "ci" that stops early has reached a basis seen in the last two steps, after which it would repeat. *)
EXTENDS Search
CONSTANTS Steps, Kind
VARIABLES c, kept, recs, best, prev, done
P(o, l) == Str("P", 0, o, l)
H == <<[s |-> P(<<"X", "X">>, <<0, 1>>), c |-> 1], [s |-> P(<<"Y", "Y">>, <<0, 1>>), c |-> 2], [s |-> P(<<"Z">>, <<1>>), c |-> -1]>>
Start == {P(<<"Z">>, <<0>>)}
MaxSize == 3
vars == <<c, kept, recs, best, prev, done>>
Init == c = Empty(H) /\ kept = Start /\ recs = <<>> /\ best = [n |-> 1000, i |-> 0] /\ prev = <<Start>> /\ done = FALSE
Cached(d, S) == LET q == SetToSeq(S) e == ExploreAll(H, d, q) IN [c |-> e, ext |-> Answer(H, e, q, TRUE, {}).ext]
Grown == LET a == Cached(c, kept) b == Cached(a.c, IF Kind = "simple" THEN kept \cup a.ext ELSE a.ext) IN
         [c |-> b.c, set |-> kept \cup (IF Kind = "simple" THEN a.ext ELSE {}) \cup b.ext]
Step == /\ ~done /\ Len(recs) < Steps
        /\ LET g == Grown IN
           IF Kind = "ci" /\ \E i \in 1 .. Len(prev) : g.set = prev[i]
           THEN done' = TRUE /\ c' = g.c /\ UNCHANGED <<kept, recs, best, prev>>
           ELSE \E n \in 0 .. 2 : \E K \in SUBSET g.set :
                  /\ K # {} /\ Cardinality(K) <= MaxSize
                  /\ c' = g.c /\ kept' = K /\ done' = FALSE
                  /\ recs' = Append(recs, [from |-> kept, set |-> g.set, n |-> n])
                  /\ best' = IF n < best.n THEN [n |-> n, i |-> Len(recs) + 1] ELSE best
                  /\ prev' = IF Len(prev) = 2 THEN <<prev[2], g.set>> ELSE Append(prev, g.set)
Next == Step
Want(S) == IF Kind = "simple" THEN TwiceAll(H, S) ELSE TwoAway(H, S)
BestOK == IF recs = <<>> THEN best.i = 0 ELSE
    /\ best.n = recs[best.i].n /\ \A i \in 1 .. Len(recs) : best.n <= recs[i].n /\ (i < best.i => best.n < recs[i].n)
ExpandOK == \A i \in 1 .. Len(recs) : recs[i].set = Want(recs[i].from)
CacheOK == LET q == SetToSeq(kept \cap ToSet(c.eb)) IN Answer(H, c, q, TRUE, {}) = Direct(H, q, TRUE, {})
Closed == \A i \in 1 .. Len(recs) : ExtF(H, ExtF(H, recs[i].from)) \subseteq recs[i].set
StopOK == done => \E i \in 1 .. Len(prev) : Want(kept) = prev[i]
=============================================================================
