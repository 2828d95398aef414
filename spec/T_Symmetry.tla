----------------------------- MODULE T_Symmetry -----------------------------
(* Acceptance of recorded searches for symmetric operators (C13, C14, C15) and symmetrized bases (C16). The session state
   holds the transformations of T_Transform, the current search space st.B and the symmetries added so far, st.Y. *)
EXTENDS Symmetry, T_Base

SymOf(s, y) == IF y.kind = "op" THEN [kind |-> "op", O |-> y.O, mode |-> y.mode] ELSE [kind |-> "tr", w |-> s.T[y.i], mode |-> y.mode]

(* symmetry matrix. ev: i, B (space), strs (basis of strings?), M: sparse matrix (strings) or dense columns (list) *)
Fail_symmat(s, ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET w == s.T[ev.i] m == Len(ev.B) f == TLCEval([j \in 1 .. m |-> OpFn(ev.B[j])]) IN
    IF ev.strs
    THEN LET M == ev.M IN
         IF ~(M.x = 1 /\ M.n = m /\ M.m = m) THEN {"symmat:shape"} ELSE
         LET got == TLCEval(FoldLeft(LAMBDA F, t : [F EXCEPT ![t[2]] = LAdd1(@, ev.B[t[1]].s[1], <<t[3], t[4]>>)], [j \in 1 .. m |-> LZero], M.a))
             U == {ev.B[j].s[1] : j \in 1 .. m}
         IN If(\A j \in 1 .. m : LET g == ActFn(w, f[j]) h == [k \in (DOMAIN g) \cap U |-> g[k]] IN EqScaled(h, 0, got[j], M.e), "symmat:column")
    ELSE \* normal equations of the projection onto the span
         LET R == ev.M U == KeysOf(f)
             img == TLCEval([j \in 1 .. m |-> LET g == ActFn(w, f[j]) IN [k \in (DOMAIN g) \cap U |-> g[k]]])
             In(a, b) == FoldSet(LAMBDA k, acc : GAdd(acc, GMul(GConj(a[k]), b[k])), G0, (DOMAIN a) \cap (DOMAIN b))
         IN IF ~(R.m = m /\ ColShape(R, m)) THEN {"symmat:shape"} ELSE
            If(\A i \in 1 .. m : LET gr == TLCEval([k \in 1 .. m |-> In(f[i], f[k])]) IN
                 \A j \in 1 .. m : GNear(GDot(gr, R.v[j]), GScale(Pow2(R.e), In(f[i], img[j])), L1(gr) \div 2 + 4), "symmat:projection")

(* a set of solutions given by coordinates: R columns, W left inverse *)
Solves(rows, m, R, Q, W, we, what) ==
    IF ~ColShape(R, m) THEN {what \o ":shape"} ELSE
    If(R.m = KernelDim(rows, m), what \o ":number")
    \cup If(InKernel(rows, R), what \o ":symmetric") \cup If(Q.m = R.m /\ LeftInverse(W, we, Q), what \o ":independent")

(* eigen-equations: C rows of Gaussian integers over 2^ce; V, val in fixed point *)
SpDot(row, u) == \* row: sparse sequence of <<index, re, im>>
    FoldLeft(LAMBDA a, t : GAdd(a, GMul(<<t[2], t[3]>>, u[t[1]])), G0, row)
EigenOK(crows, ce, cx, V, val, ve) ==
    \A j \in 1 .. V.m :
        LET l1 == IF cx = 1 THEN 0 ELSE L1(V.v[j]) IN
        \A i \in 1 .. V.n :
            LET a == SpDot(crows[i], V.v[j]) l == GMul(<<val[j], 0>>, V.v[j][i])
                slack == FoldLeft(LAMBDA q, t : q + AbsI(t[2]) + AbsI(t[3]), 0, crows[i])
            IN GNear(GScale(Pow2(ve), a), GScale(Pow2(ce), l),
                     Pow2(ve) * (slack \div 2 + 2 + l1 \div 2) + Pow2(ce) * (Pow2(V.e) + AbsI(val[j])))
UnitNear(v, e) == AbsI(FoldLeft(LAMBDA q, c : q + GAbs2(c), 0, v) - Pow2(2 * e)) <= Pow2(2 * e - 4)
(* the sets found for one symmetry are orthonormal: intersecting them relies on it *)
OrthonormalCols(Q) == \A i, j \in 1 .. Q.m : i <= j => GNear(GInner(Q.v[i], Q.v[j]), IF i = j THEN <<Pow2(2 * Q.e), 0>> ELSE G0, Pow2(2 * Q.e - 4))
Fail_solve(s, ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET y == SymOf(s, ev.y) m == Len(ev.B)
        cols == SymCols(y, ev.B) rows == RowsOf(cols)
        what == IF y.kind = "op" THEN y.mode ELSE "invariant-" \o y.mode
    IN Solves(rows, m, ev.R, ev.Q, ev.W, ev.we, what)
       \cup If(ColShape(ev.Q, m) => OrthonormalCols(ev.Q), what \o ":orthonormal")
       \cup IF ~ev.sup THEN {} ELSE
            \* superoperator: for an operator L^H L; for a transformation (S - sI)^H (S - sI)/2, resp. I - s (S + S^H)/2
            IF ~(ev.V.n = m /\ ev.V.m = Len(ev.val) /\ Len(ev.crows) = m) THEN {"superoperator:shape"} ELSE
            If(EigenOK(ev.crows, ev.ce, ev.cx, ev.V, ev.val, ev.ve), "superoperator:eigen-equation")
            \cup If(\A j \in 1 .. Len(ev.val) : ev.val[j] >= -1, "superoperator:positive")
            \cup If(\A j \in 1 .. Len(ev.V.v) : UnitNear(ev.V.v[j], ev.V.e), "superoperator:unit-vectors")
            \cup IF y.kind # "op" THEN {} ELSE
                 LET In(a, b) == FoldSet(LAMBDA k, acc : GAdd(acc, GMul(GConj(a[k]), b[k])), G0, (DOMAIN a) \cap (DOMAIN b)) IN
                 If(ev.cx = 1 /\ \A i \in 1 .. m : LET r == FoldLeft(LAMBDA F, t : LAdd1(F, t[1], <<t[2], t[3]>>), LZero, ev.crows[i]) IN
                       \A j \in 1 .. m : GScale(Pow2(2 * (ev.B[1].e + y.O.e)), LGet(r, j)) = GScale(Pow2(ev.ce), In(cols[i], cols[j])), "superoperator:value")

-----------------------------------------------------------------------------
(* a wider tolerance: the span of all eigenvectors with smaller eigenvalues *)
Fail_soltol(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    IF ~(ColShape(ev.R, ev.n) /\ ColShape(ev.V, ev.n) /\ ev.V.m = ev.n /\ Len(ev.val) = ev.n) THEN {"tolerance:shape"} ELSE
    If(ev.R.m = Cardinality({j \in 1 .. ev.n : ev.val[j] < ev.tol}), "tolerance:number")
    \cup If(ev.Q.m = ev.R.m /\ LeftInverse(ev.W, ev.we, ev.Q), "tolerance:independent")
    \cup If(\A j \in 1 .. ev.n : ev.val[j] > ev.tol => \A i \in 1 .. ev.R.m : GNear(GInner(ev.V.v[j], ev.R.v[i]), G0, Pow2(14)), "tolerance:span")

-----------------------------------------------------------------------------
(* The generator as a machine. gnew sets the search space; gadd adds a symmetry; ggen generates. *)
Fail_gnew(ev) == If(ev.exc = "", "exception") \cup If(Independent(ev.B), "bad-input")
After_gnew(s, ev) == [T |-> s.T, B |-> ev.B, Y |-> <<>>, rows |-> <<>>]
Fail_gadd(ev) == If(ev.exc = "", "exception")
After_gadd(s, ev) == LET y == SymOf(s, ev.y) IN [s EXCEPT !.Y = Append(@, y), !.rows = Append(@, RowsOf(SymCols(y, s.B)))]
Joint(rowss, n) == FoldLeft(LAMBDA acc, i : acc \o rowss[i], <<>>, [i \in 1 .. n |-> i])
(* ev.out: accumulated outputs, each either a set of columns over the search space (kind "cols") or operators (kind "ops",
   R: columns over the strings ev.U of the search space); ev.single: outputs per symmetry (noncumulative mode) *)
StrSpace(U) == [j \in 1 .. Len(U) |-> StrOp(U[j])]
Fail_ggen(s, ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET m == Len(s.B) n == Len(s.Y) IN
    If(Len(ev.out) = n, "generate:outputs")
    \cup IF Len(ev.out) # n THEN {} ELSE
         UNION {LET o == ev.out[k] rows == TLCEval(Joint(s.rows, k)) IN
                IF o.kind = "cols" THEN Solves(rows, m, o.R, o.Q, o.W, o.we, "joint")
                ELSE IF ~ColShape(o.R, Len(ev.U)) THEN {"joint:shape"} ELSE
                     If(o.R.m = KernelDim(rows, m), "joint:number")
                     \cup If(\A j \in 1 .. k : InKernel(RowsOf(SymCols(s.Y[j], StrSpace(ev.U))), o.R), "joint:symmetric")
                     \cup If(Len(o.Q.v) = o.R.m /\ LeftInverse(o.W, o.we, o.Q), "joint:independent")
                     \cup If(InKernel(ev.NA, o.R), "joint:search-space")
                : k \in 1 .. n}
         \cup UNION {Solves(s.rows[k], m, ev.single[k].R, ev.single[k].Q, ev.single[k].W, ev.single[k].we, "single") : k \in 1 .. Len(ev.single)}
         \cup If(ev.single = <<>> \/ Len(ev.single) = n, "generate:singles")
    \cup If(ev.U = <<>> \/ KernelOf(ev.NA, [j \in 1 .. m |-> LET f == OpFn(s.B[j]) IN [i \in 1 .. Len(ev.U) |-> LGet(f, ev.U[i])]], Len(ev.U)), "bad-certificate")

-----------------------------------------------------------------------------
(* symmetrized basis. ev: B strings, gens: indices of transformations, r: operators *)
Fail_symbasis(s, ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET gens == {s.T[ev.gens[i]] : i \in 1 .. Len(ev.gens)}
        orbs == TLCEval({SOrbit(x, gens) : x \in ToS(ev.B)})
        want == {OrbitSupport(o) : o \in {p \in orbs : ~Cancels(p)}}
        sup == [i \in 1 .. Len(ev.r) |-> ToS(ev.r[i].s)]
        Co(op, x) == op.c[CHOOSE i \in 1 .. Len(op.s) : op.s[i] = x]
    IN If(\A i \in 1 .. Len(ev.r) : NoDup(ev.r[i].s), "duplicate")
       \cup If(NoDup(sup), "symmetrized:repeated") \cup If(ToS(sup) = want, "symmetrized:orbits")
       \cup IF ToS(sup) # want THEN {} ELSE
            UNION {LET op == ev.r[i] IN
                   If(\A x \in ToS(op.s) : \A g \in gens : LET a == ActStr(g, x) IN GNear(Co(op, a.s), GIPow(a.k, Co(op, x)), 2), "symmetrized:invariant")
                   \cup If(op.e <= 12 /\ (\A q \in 1 .. Len(op.c) : AbsI(op.c[q][1]) <= Pow2(op.e) + 8 /\ AbsI(op.c[q][2]) <= Pow2(op.e) + 8) /\ AbsI(FoldLeft(LAMBDA q, c : q + GAbs2(c), 0, op.c) - Pow2(2 * op.e)) <= Pow2(2 * op.e - 8), "symmetrized:normalized")
                  : i \in 1 .. Len(ev.r)}
=============================================================================
