------------------------------ MODULE T_Tools ------------------------------
(* Acceptance of recorded helper calls (C22) and subspace tools (C23). *)
EXTENDS Tools, LinAlg, T_Base

Exc(ev) == IF ev.exc # "" THEN {"exception"} ELSE {}
Fail_sign(ev) == Exc(ev) \cup IF ev.exc # "" THEN {} ELSE If(ev.r = Parity(ev.p), "sign")
Fail_sortsign(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    If(Ascending(ev.r) /\ SameItems(ev.r, ev.v), "sorted:" \o ev.how) \cup If(ev.s = Parity(ev.v), "sort-sign:" \o ev.how)
Fail_compare(ev) == IF ev.exc # "" THEN {"exception"} ELSE If(ev.r = Compare(ev.a, ev.b), "compare")
Fail_cliques(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    If(\A i \in 1 .. Len(ev.r) : NoDup(ev.r[i]), "clique:repeated-node")
    \cup LET q == [i \in 1 .. Len(ev.r) |-> ToS(ev.r[i])] IN
         If(NoDup(q), "clique:repeated") \cup If(ToS(q) = MaxCliques(ev.adj), "cliques")
Fail_comps(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    UNION {LET r == ev.r[k] q == [i \in 1 .. Len(r) |-> ToS(r[i])] IN
           If(NoDup(q) /\ ToS(q) = Components(ev.adj) /\ \A i \in 1 .. Len(r) : NoDup(r[i]), "components") : k \in 1 .. Len(ev.r)}
    \cup LET r == ev.r[ev.bfs] IN
         If(\A i \in 1 .. Len(r) : Ascending([j \in 1 .. Len(r[i]) |-> Level(ev.adj, {r[i][1]}, r[i][j])]), "components:breadth-first")
Fail_argsort(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    If(Len(ev.r) = Len(ev.v) /\ IsPerm0(ev.r), "argsort:permutation")
    \cup If(\A i \in 1 .. (Len(ev.r) - 1) : Compare(ev.v[ev.r[i] + 1], ev.v[ev.r[i + 1] + 1]) <= 0, "argsort:order")
Fail_dups(ev) == IF ev.exc # "" THEN {"exception"} ELSE If(ev.r = Firsts(ev.v), "duplicates")
Fail_compose(ev) == IF ev.exc # "" THEN {"exception"} ELSE If(ev.r = [i \in 1 .. Len(ev.p) |-> ev.p[ev.q[i] + 1]], "compose")
Fail_subst(ev) == IF ev.exc # "" THEN {"exception"} ELSE If(ev.r = Subst(ev.text, 1, ev.subs), "substitution")

-----------------------------------------------------------------------------
(* A: integer columns; keep: the columns that enlarge the span *)
RankOf(cols) == IF cols = <<>> THEN 0 ELSE Rank(cols)
Fail_gs(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET m == Len(ev.A)
        rk == TLCEval([j \in 0 .. m |-> RankOf(SubSeq(ev.A, 1, j))])
    IN IF ~(ev.R.m = rk[m] /\ ColShape(ev.R, ev.n)) THEN {"gs:columns"} ELSE
       If(Orthonormal(ev.R), "gs:orthonormal")
       \cup If(\A j \in 1 .. m : LET p == [i \in 1 .. rk[j] |-> GInner(ev.R.v[i], ev.A[j])] IN
                 \A c \in 1 .. ev.n :
                     LET y == FoldLeft(LAMBDA a, i : GAdd(a, GMul(p[i], ev.R.v[i][c])), G0, [i \in 1 .. rk[j] |-> i])
                         w == GScale(Pow2(ev.R.e), ev.A[j][c])
                     IN AbsI(y[1] \div Pow2(ev.R.e) - w[1]) <= 4 * L1(ev.A[j]) + 4 /\ AbsI(y[2] \div Pow2(ev.R.e) - w[2]) <= 4 * L1(ev.A[j]) + 4,
               "gs:span")
Fail_inter(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    IF ~(KernelOf(ev.NA, ev.A, ev.n) /\ KernelOf(ev.NB, ev.B, ev.n)) THEN {"bad-certificate"} ELSE
    IF ~(ev.R.m = RankOf(ev.A) + RankOf(ev.B) - RankOf(ev.A \o ev.B) /\ ColShape(ev.R, ev.n)) THEN {"intersection:dimension"} ELSE
    If(InKernel(ev.NA, ev.R) /\ InKernel(ev.NB, ev.R), "intersection:member") \cup If(Orthonormal(ev.R), "intersection:orthonormal")
Weight(u) == Cardinality({i \in 1 .. Len(u) : u[i] # G0})
Fail_sparsify(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    IF ~KernelOf(ev.NA, ev.A, ev.n) THEN {"bad-certificate"} ELSE
    IF ~(ev.R.m = Len(ev.A) /\ ColShape(ev.R, ev.n)) THEN {"sparsify:number"} ELSE
    If(InKernel(ev.NA, ev.R), "sparsify:span") \cup If(UnitCols(ev.R), "sparsify:unit")
    \cup If(IF ev.orth THEN Orthonormal(ev.R) ELSE LeftInverse(ev.W, ev.we, ev.R), "sparsify:independent")
    \cup If(Ascending([j \in 1 .. ev.R.m |-> Weight(ev.R.v[j])]), "sparsify:order")
Fail_toolrej(ev) == If(ev.exc # "", "accepted:" \o ev.why)
=============================================================================
