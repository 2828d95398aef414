------------------------------- MODULE Search -------------------------------
(*
 The selected-CI searches as machines over sets of strings. A search keeps a basis (set of strings); each step expands
 the basis by commuting with terms of the Hamiltonian H (a sequence of [s, c]), records the operator of the basis with
 the smallest commutator norm, and truncates the basis to the largest coefficients of that operator. Operators are
 functions from strings to Gaussian integers over a fixed power of two. Selections by magnitude are records
 [ok, set]: ok = FALSE where magnitudes are too close to decide.
*)
EXTENDS Explore

ComF(H, f) == \* [f, H]
    FoldSet(LAMBDA s, g : FoldLeft(LAMBDA k, h : LET r == OpPair("commutator", s, h.s) IN LAdd1(k, r[2], GMul(f[s], GScale(h.c, r[1]))), g, H),
            LZero, DOMAIN f)
ComAbs(H, S) == \* sums of the absolute values of the coefficients that enter each string
    FoldSet(LAMBDA s, g : FoldLeft(LAMBDA k, h : LET r == OpPair("commutator", s, h.s) IN
                IF r[1] = G0 THEN k ELSE (r[2] :> ((IF r[2] \in DOMAIN k THEN k[r[2]] ELSE 0) + 2 * AbsI(h.c))) @@ k, g, H),
            <<>>, S)
ExtF(H, S) == UNION {{OpPair("commutator", s, H[h].s)[2] : h \in {k \in 1 .. Len(H) : OpPair("commutator", s, H[k].s)[1] # G0}} : s \in S}
Part(H, A) == SelectSeq(H, LAMBDA h : Touches(h, A))
OneSided(c) == c[1] = 0 \/ c[2] = 0
Mag(c) == AbsI(c[1]) + AbsI(c[2])
MagF(g, S) == [s \in S |-> Mag(LGet(g, s))]
Sure(g) == \A s \in DOMAIN g : OneSided(g[s])
TopK(m, S, k, gap) ==
    IF Cardinality(S) <= k THEN [ok |-> TRUE, set |-> S]
    ELSE LET q == SetToSortSeq(S, LAMBDA a, b : m[a] > m[b]) IN
         [ok |-> k = 0 \/ m[q[k]] - m[q[k + 1]] > gap, set |-> {q[i] : i \in 1 .. k}]
(* the strings kept by a truncation to coefficients above a threshold in [lo, hi], at most max of them *)
Trunc(f, lo, hi, max) ==
    LET m == MagF(f, DOMAIN f) t == TopK(m, {s \in DOMAIN f : m[s] > hi}, max, 2) IN
    [ok |-> t.ok /\ Sure(f) /\ \A s \in DOMAIN f : m[s] < lo - 2 \/ m[s] > hi + 2, set |-> t.set]
RestrictF(f, S) == [s \in (DOMAIN f) \cap S |-> f[s]]
DownF(f, k) == [s \in DOMAIN f |-> <<(f[s][1] + Pow2(k - 1)) \div Pow2(k), (f[s][2] + Pow2(k - 1)) \div Pow2(k)>>]

-----------------------------------------------------------------------------
(* expansions *)
TwiceAll(H, T) == LET a == T \cup ExtF(H, T) IN a \cup ExtF(H, a)      \* selected_ci_simple
TwoAway(H, T) == T \cup ExtF(H, ExtF(H, T))                            \* selected_ci
SweepSets(site, maxl) == <<{site, MinI(site + 1, maxl)}, {MaxI(0, site - 1), site, MinI(site + 1, maxl), MinI(site + 2, maxl)}>>
SweepExpand(H, T, site, maxl) == LET a == SweepSets(site, maxl) IN T \cup ExtF(Part(H, a[2]), ExtF(Part(H, a[1]), T))
(* one string: the largest new term of [H, a], for the largest term a of [H, O] that has one. O over 2^16 *)
RECURSIVE PickFrom(_, _, _, _)
PickFrom(H, basis, m, S) == \* S: candidates a with magnitudes m
    IF S = {} THEN [ok |-> TRUE, set |-> {}]
    ELSE LET t == TopK(m, S, 1, 256) a == CHOOSE x \in t.set : TRUE new == ExtF(H, {a}) \ basis
             m2 == MagF(ComF(H, a :> G1), new)
         IN IF ~t.ok THEN [ok |-> FALSE, set |-> {}]
            ELSE IF new = {} THEN PickFrom(H, basis, m, S \ {a}) ELSE TopK(m2, new, 1, 0)
GreedyOne(H, basis, O) == LET g == ComF(H, O) X == ExtF(H, basis) r == PickFrom(H, basis, MagF(g, X), X) IN [r EXCEPT !.ok = @ /\ Sure(g)]
(* the nH largest terms A of [H, O]; for every commuting operator the nH largest new terms of [C, A] *)
GreedyFrom(Cs, basis, seen, O, nH) ==
    LET H == Cs[1] g == TLCEval(ComF(H, O)) a == TopK(MagF(g, ExtF(H, basis)), ExtF(H, basis), nH, 256) gA == RestrictF(g, a.set) IN
    FoldLeft(LAMBDA b, C :
                LET X == ExtF(C, a.set) new == X \ b.set g2 == ComF(C, gA)
                    t == TopK(MagF(g2, new), new, MinI(nH, Cardinality(X)), 2048)
                IN [ok |-> b.ok /\ t.ok /\ Sure(g2), set |-> b.set \cup t.set],
             [ok |-> a.ok /\ Sure(g), set |-> seen], Cs)
GreedyMany(Cs, basis, O, nH) == GreedyFrom(Cs, basis, basis, O, nH)
(* several operators on one basis, each adds its own new terms *)
GreedyJoint(H, basis, Os, nH) ==
    FoldLeft(LAMBDA b, O : LET g == GreedyFrom(<<H>>, basis, b.set, O, nH) IN [ok |-> b.ok /\ g.ok, set |-> g.set], [ok |-> TRUE, set |-> basis], Os)
AntiOf(S, R) == UNION {{OpPair("anticommutator", a, b)[2] : b \in {x \in R : x # a /\ OpPair("anticommutator", a, x)[1] # G0}} : a \in S}
(* is q the basis b after adding anticommutators of the strings S of the operator, and then of S with the strings that were
   added, at most L of each kind? *)
AntiGrown(q, b, S, L) ==
    LET n1 == AntiOf(S, S) \ b c1 == Cardinality(n1) IN
    IF c1 > L THEN LET r == n1 \cap q each == TLCEval([x \in r |-> AntiOf(S, {x})]) IN \* which L of them were chosen is not determined
         /\ b \subseteq q /\ Cardinality(q \ b) <= 2 * L
         /\ \E k \in kSubset(L, r) : LET n2 == (UNION {each[x] : x \in k}) \ (b \cup k) IN
              (q \ b) \ k \subseteq n2 /\ Cardinality(q \ b) = L + MinI(L, Cardinality(n2))
    ELSE LET n2 == AntiOf(S, n1) \ (b \cup n1) c2 == Cardinality(n2) IN
         /\ b \cup n1 \subseteq q /\ q \subseteq b \cup n1 \cup n2
         /\ Cardinality(q) = Cardinality(b) + c1 + MinI(L, c2)
AntiSet(S) == UNION {{OpPair("anticommutator", a, b)[2] : b \in {x \in S : x # a /\ OpPair("anticommutator", a, x)[1] # G0}} : a \in S}
=============================================================================
