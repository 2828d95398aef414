------------------------------ MODULE Symmetry ------------------------------
(*
 Symmetric operators as kernels. A search space is a sequence of operators [t, e, c, s] (a basis of strings is the
 sequence of its strings with coefficient 1). A symmetry is a record: kind "op" with an operator O, or kind "tr" with a
 transformation word w; mode "commutator" or "anticommutator".
 An element sum_j x_j O_j has the symmetry iff x is in the kernel of the columns SymCol(sym, O_j), which are exact
 combinations of strings.
*)
EXTENDS Transform, LinAlg

StrOp(s) == [t |-> s.t, e |-> 0, x |-> 1, c |-> <<G1>>, s |-> <<s>>]
SymCol(y, A) == \* the combination of strings that vanishes iff A has the symmetry
    IF y.kind = "op" THEN OpOp(y.mode, A, y.O)
    ELSE LET f == OpFn(A) IN LAdd(ActFn(y.w, f), LScale(IF y.mode = "commutator" THEN <<-1, 0>> ELSE G1, f))
SymCols(y, space) == TLCEval([j \in 1 .. Len(space) |-> TLCEval(SymCol(y, space[j]))])
(* columns (functions from keys) to a sequence of rows over the columns, one per key *)
KeysOf(cols) == UNION {DOMAIN cols[j] : j \in 1 .. Len(cols)}
RowsOf(cols) == LET ks == SetToSeq(KeysOf(cols)) IN
    TLCEval([i \in 1 .. Len(ks) |-> TLCEval([j \in 1 .. Len(cols) |-> LGet(cols[j], ks[i])])])
RankRows(rows) == IF rows = <<>> THEN 0 ELSE Rank(rows)
KernelDim(rows, m) == m - RankRows(rows)
(* independence of operators *)
Independent(space) == RankRows(RowsOf([j \in 1 .. Len(space) |-> OpFn(space[j])])) = Len(space)

-----------------------------------------------------------------------------
(* Orbits of signed strings <<string, k>> under permutations *)
RECURSIVE SClosure(_, _)
SClosure(S, gens) ==
    LET T == S \cup {LET a == ActStr(g, x[1]) IN <<a.s, (x[2] + a.k) % 4>> : x \in S, g \in gens} IN IF T = S THEN S ELSE SClosure(T, gens)
SOrbit(s, gens) == SClosure({<<s, 0>>}, gens)
Cancels(orb) == \E x \in orb : <<x[1], (x[2] + 2) % 4>> \in orb
OrbitSupport(orb) == {x[1] : x \in orb}
=============================================================================
