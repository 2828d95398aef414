------------------------------ MODULE T_Matrix ------------------------------
(* Acceptance of matrix, vector and density-matrix representations (C20) and of diagonalizations (C21). *)
EXTENDS Matrix, LinAlg, T_Base

SparseFn(M) == \* [e, x, n, m, a]: columns as functions
    TLCEval([c \in 0 .. M.m - 1 |-> LET q == SelectSeq(M.a, LAMBDA t : t[2] = c + 1) IN FoldLeft(LAMBDA f, t : LAdd1(f, t[1] - 1, <<t[3], t[4]>>), LZero, q)])
SameCols(M, f, e, n) == \* the matrix M is that of the combination of strings f / 2^e
    LET S == SparseFn(M) IN M.x = 1 /\ M.n = Pow2(n) /\ M.m = Pow2(n) /\ \A c \in Confs(n) : EqScaled(S[c], M.e, PauliCol(f, c, n), e)
DenseVec(v) == [c \in 0 .. Len(v.c) - 1 |-> v.c[c + 1]]
EqVec(a, ea, b, eb) == LET m == MaxI(ea, eb) IN \A c \in DOMAIN b : GScale(Pow2(m - ea), a[c]) = GScale(Pow2(m - eb), b[c])

(* A: operator (one term for a string); M: sparse matrix *)
Fail_mat(ev) == IF ev.exc # "" THEN {"exception"} ELSE If(SameCols(ev.M, OpFn(ev.A), ev.A.e, ev.n), "matrix:entries")
(* p: permutation; A: operator; M: matrix of the transformed operator *)
Fail_tmat(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET S == SparseFn(ev.M) n == ev.n
        want(c) == LET f == PauliCol(OpFn(ev.A), c, n) IN [b \in {PermConf(ev.p, a, n) : a \in DOMAIN f} |-> f[CHOOSE a \in DOMAIN f : PermConf(ev.p, a, n) = b]]
    IN If(ev.M.x = 1 /\ ev.M.n = Pow2(n) /\ ev.M.m = Pow2(n) /\ \A c \in Confs(n) : EqScaled(S[PermConf(ev.p, c, n)], ev.M.e, want(c), ev.A.e), "matrix:conjugation")
(* M: matrix; B: basis strings; vec: coefficients; op: operator *)
Fail_tovec(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET S == SparseFn(ev.M) n == ev.n
        want == TLCEval([i \in 1 .. Len(ev.B) |-> TraceWith(ev.B[i], S, n)]) e == ev.M.e + n
        same(c, ec) == LET m == MaxI(e, ec) IN \A i \in 1 .. Len(ev.B) : GScale(Pow2(m - ec), c[i]) = GScale(Pow2(m - e), want[i])
    IN If(Len(ev.vec.c) = Len(ev.B) /\ ev.vec.x = 1 /\ same(ev.vec.c, ev.vec.e), "vector:coefficients")
       \cup IF ~ev.hasop THEN {} ELSE If(ev.o.t = "P" /\ ev.o.s = ev.B /\ Len(ev.o.c) = Len(ev.B) /\ ev.o.x = 1 /\ same(ev.o.c, ev.o.e), "vector:operator")
Fail_tconf(ev) == IF ev.exc # "" THEN {"exception"} ELSE If(\A i \in 1 .. Len(ev.cs) : ev.r[i] = PermConf(ev.p, ev.cs[i], ev.n), "permutation:configuration")
Fail_tvec(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    If(Len(ev.r.c) = Pow2(ev.n) /\ ev.r.x = 1 /\ EqVec(DenseVec(ev.r), ev.r.e, PermVec(ev.p, DenseVec(ev.v), ev.n), ev.v.e), "permutation:vector")
(* u, v: vectors; q: kept orbitals; R: dense columns *)
Fail_rdm(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET want == Rdm(DenseVec(ev.u), DenseVec(ev.v), ev.q, ev.n) m == Pow2(Len(ev.q)) e == ev.u.e + ev.v.e f == MaxI(e, ev.R.e) IN
    If(ev.R.n = m /\ ev.R.m = m /\ ev.R.x = 1 /\ \A a, b \in 0 .. m - 1 :
          GScale(Pow2(f - ev.R.e), ev.R.v[b + 1][a + 1]) = GScale(Pow2(f - e), want[<<a, b>>]), "density-matrix:entries")
(* R: density matrix, columns; k: index; val: exp((1 - k) S) as an integer over 2^(k e) *)
Fail_renyi(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET m == ev.R.m A == TLCEval([x \in (0 .. m - 1) \X (0 .. m - 1) |-> ev.R.v[x[2] + 1][x[1] + 1]]) IN
    If(MatTrace(MatPow(A, ev.k, m), m) = <<ev.val, 0>>, "entropy:trace")
Fail_dgrej(ev) == If(ev.exc = ev.want, "rejection:" \o ev.why)

-----------------------------------------------------------------------------
(* Eigenpairs. M: columns (functions) of an integer matrix over 2^e, size d; vals: <<re, im>> over 2^14; X: columns over 2^14 *)
RowSums(M, d) == TLCEval([r \in 0 .. d - 1 |-> FoldSet(LAMBDA c, a : a + LET g == LGet(M[c], r) IN AbsI(g[1]) + AbsI(g[2]), 0, 0 .. d - 1)])
Residual(M, e, d, rows, lam, x) ==
    \A r \in 0 .. d - 1 :
        LET a == FoldSet(LAMBDA c, s : IF r \in DOMAIN M[c] THEN GAdd(s, GMul(M[c][r], x[c + 1])) ELSE s, G0, 0 .. d - 1)
            b == GScale(Pow2(e), GMulFix(lam, x[r + 1]))
        IN GNear(a, b, rows[r] + Pow2(e) * (8 + (AbsI(lam[1]) + AbsI(lam[2])) \div 8192))
Wrap2(E) == [k \in 1 .. Len(E) |-> <<E[k], 0>>]
Small(X) == X.e = 14 /\ Len(X.v) = X.m /\ \A k \in 1 .. Len(X.v) : Len(X.v[k]) = X.n /\ \A i \in 1 .. Len(X.v[k]) : AbsI(X.v[k][i][1]) <= 16448 /\ AbsI(X.v[k][i][2]) <= 16448
SmallE(vals) == \A k \in 1 .. Len(vals) : AbsI(vals[k][1]) < 2097152 /\ AbsI(vals[k][2]) < 2097152
Eigenpairs(M, e, d, R) == \* R: [n, vals, X]
    LET rows == RowSums(M, d) IN Len(R.vals) = R.X.m /\ ColShape(R.X, d) /\ Small(R.X) /\ SmallE(R.vals) /\ \A k \in 1 .. R.X.m : Residual(M, e, d, rows, R.vals[k], R.X.v[k])
Ascending(vals) == \A k \in 1 .. Len(vals) - 1 : vals[k][1] <= vals[k + 1][1] + 1
Reals(vals) == \A k \in 1 .. Len(vals) : AbsI(vals[k][2]) <= 1
(* the first k of the full list are separated from each other and from the rest *)
Separated(vals, k) == \A i \in 1 .. k : i < Len(vals) => vals[i + 1][1] - vals[i][1] >= 512
Lowest(part, full) == Len(part) <= Len(full) /\ \A i \in 1 .. Len(part) : AbsI(part[i][1] - full[i][1]) <= 16

(* ev: A operator; n; herm; k: number of vectors or 0 for all; vals, X: result; fv, fX: certificate of the whole spectrum when k > 0 *)
TargetMatrix(A, n) ==
    LET d == DenOp(A) f == (IF A.t = "F" THEN NoId(d) ELSE d) IN
    [e |-> f.e, M |-> TLCEval([c \in Confs(n) |-> IF A.t = "P" THEN PauliCol(OpFn(A), c, n) ELSE WordCol(f.f, c, n)])]
Fail_eig(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET d == Pow2(ev.n) T == TargetMatrix(ev.A, ev.n) e == IF ev.A.t = "P" THEN ev.A.e ELSE T.e
        R == [vals |-> ev.vals, X |-> ev.X]
    IN If(Len(ev.vals) = (IF ev.k = 0 THEN d ELSE ev.k) /\ ev.X.m = Len(ev.vals), "eigen:number")
       \cup IF ~(ColShape(ev.X, d) /\ Small(ev.X) /\ SmallE(ev.vals)) THEN {"eigen:normalized"} ELSE If(Eigenpairs(T.M, e, d, R), "eigen:equation") \cup If(UnitCols(ev.X), "eigen:normalized")
       \cup IF ~ev.herm THEN {} ELSE
            If(Reals(ev.vals) /\ Ascending(ev.vals), "eigen:ascending")
            \cup IF ev.k = 0 THEN If(Orthonormal(ev.X), "eigen:orthonormal") ELSE
                 LET F == [vals |-> ev.fv, X |-> ev.fX] IN
                 IF ~(Len(ev.fv) = d /\ Eigenpairs(T.M, e, d, F) /\ Orthonormal(ev.fX) /\ Ascending(ev.fv)) THEN {"bad-certificate"}
                 ELSE If(Separated(ev.fv, ev.k) => Lowest(ev.vals, ev.fv) /\ Orthonormal(ev.X), "eigen:lowest")

(* Single-particle modes. A: Hamiltonian; n orbitals; modes p, q (columns over 2^14, n rows), energies E over 2^14 *)
ModeOK(ad, e, n, E, p, q) == \* [H, b] = E b for b = sum_i p_i c_i + q_i c_i^dagger
    LET x == TLCEval([g \in 1 .. 2 * n |-> LET i == ((g - 1) \div 2) + 1 IN
                 IF g % 2 = 1 THEN GAdd(p[i], q[i]) ELSE GMul(GI, GSub(p[i], q[i]))])
    IN \A g \in 1 .. 2 * n :
          LET a == FoldLeft(LAMBDA s, t : GAdd(s, GMul(t[2], x[t[1]])), G0, ad[g])
              w == FoldLeft(LAMBDA s, t : s + AbsI(t[2][1]) + AbsI(t[2][2]), 0, ad[g])
          IN GNear(a, GScale(Pow2(e), GMulFix(<<E, 0>>, x[g])), 2 * w + Pow2(e) * (16 + AbsI(E) \div 4096))
ModeGram(P, Q, i, j) == GAdd(GInner(P.v[i], P.v[j]), GInner(Q.v[i], Q.v[j]))
ModesOrtho(P, Q) == \A i, j \in 1 .. P.m : i <= j => GNear(ModeGram(P, Q, i, j), IF i = j THEN <<Pow2(28), 0>> ELSE G0, Pow2(19))
Modes(A, n, E, P, Q) ==
    LET d == DenOp(A) ad == AdH(d.f, n) IN
    /\ ColShape(P, n) /\ ColShape(Q, n) /\ P.m = Q.m /\ Small(P) /\ Small(Q) /\ SmallE([k \in 1 .. Len(E) |-> <<E[k], 0>>]) /\ Len(E) = P.m /\ Quadratic(d.f)
    /\ \A k \in 1 .. P.m : ModeOK(ad, d.e, n, E[k], P.v[k], Q.v[k])

(* tb: k (0: all), E, P; FE, FP: certificate *)
ZeroCols(P) == [P EXCEPT !.v = [k \in 1 .. P.m |-> [i \in 1 .. P.n |-> G0]]]
Fail_tb(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    If(Len(ev.E) = (IF ev.k = 0 THEN ev.n ELSE ev.k) /\ ev.P.m = Len(ev.E), "modes:number")
    \cup IF ~(ColShape(ev.P, ev.n) /\ Small(ev.P)) THEN {"modes:normalized"} ELSE If(Modes(ev.A, ev.n, ev.E, ZeroCols(ev.P), ev.P), "modes:equation") \cup If(UnitCols(ev.P), "modes:normalized")
    \cup IF ev.k = 0 THEN If(Orthonormal(ev.P), "modes:orthonormal") ELSE
         IF ~(Len(ev.FE) = ev.n /\ Modes(ev.A, ev.n, ev.FE, ZeroCols(ev.FP), ev.FP) /\ Orthonormal(ev.FP) /\ Ascending(Wrap2(ev.FE))) THEN {"bad-certificate"}
         ELSE If(Separated(Wrap2(ev.FE), ev.k) => Lowest(Wrap2(SortSeq(ev.E, LAMBDA a, b : a < b)), Wrap2(ev.FE)) /\ Orthonormal(ev.P), "modes:lowest")
(* bdg: energies E; U, V. b = sum V c + U c^dagger obeys [H, b] = -E b *)
Fail_bdg(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET m == IF ev.k = 0 THEN ev.n ELSE MinI(ev.k, ev.n) IN
    If(Len(ev.E) = m /\ ev.U.m = m, "modes:number")
    \cup IF ~(ColShape(ev.U, ev.n) /\ ColShape(ev.V, ev.n) /\ Small(ev.U) /\ Small(ev.V) /\ ev.U.m = ev.V.m) THEN {"modes:normalized"} ELSE If(Modes(ev.A, ev.n, [k \in 1 .. Len(ev.E) |-> -ev.E[k]], ev.V, ev.U), "modes:equation") \cup If(\A k \in 1 .. ev.U.m : GNear(ModeGram(ev.V, ev.U, k, k), <<Pow2(28), 0>>, Pow2(19)), "modes:normalized")
    \cup If(\A k \in 1 .. Len(ev.E) : ev.E[k] >= 0, "modes:energies")
    \cup IF ev.k = 0 THEN If(ModesOrtho(ev.V, ev.U), "modes:orthonormal") ELSE
         LET neg == [k \in 1 .. Len(ev.FE) |-> <<-ev.FE[k], 0>>] IN
         IF ~(Len(ev.FE) = ev.n /\ Modes(ev.A, ev.n, [k \in 1 .. Len(ev.FE) |-> -ev.FE[k]], ev.FV, ev.FU) /\ ModesOrtho(ev.FV, ev.FU) /\ Ascending(neg)) THEN {"bad-certificate"}
         ELSE If(Separated(neg, m) => Lowest([k \in 1 .. Len(ev.E) |-> <<-ev.E[k], 0>>], neg) /\ ModesOrtho(ev.V, ev.U), "modes:lowest")
(* Majorana form: shift, E (n values), P, Q (2n columns), Z (2n real columns, rows a_1, b_1, a_2, ...) *)
Fail_quad(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET n == ev.n sum == FoldLeft(LAMBDA a, b : a + b, 0, ev.E)
        EE == [k \in 1 .. 2 * n |-> IF k <= n THEN -ev.E[k] ELSE ev.E[k - n]]
        d == DenOp(ev.A) ad == AdH(d.f, n)
        rot(g, k) == FoldLeft(LAMBDA s, t : GAdd(s, GMul(t[2], ev.Z.v[k][t[1]])), G0, ad[g])
        w(g) == FoldLeft(LAMBDA s, t : s + AbsI(t[2][1]) + AbsI(t[2][2]), 0, ad[g])
        (* columns 2k-1, 2k of Z: with u, v the Majorana combinations, [H, u] = -i E v, [H, v] = i E u *)
        pair(k) == \A g \in 1 .. 2 * n :
            LET tol == 2 * w(g) + Pow2(d.e) * (16 + AbsI(ev.E[k]) \div 4096) IN
            /\ GNear(rot(g, 2 * k - 1), GScale(Pow2(d.e), GIPow(3, GMulFix(<<ev.E[k], 0>>, ev.Z.v[2 * k][g]))), tol)
            /\ GNear(rot(g, 2 * k), GScale(Pow2(d.e), GIPow(1, GMulFix(<<ev.E[k], 0>>, ev.Z.v[2 * k - 1][g]))), tol)
    IN IF ~(Len(ev.E) = n /\ AbsI(ev.shift) < 16777216 /\ ev.P.m = 2 * n /\ ev.Q.m = 2 * n /\ ColShape(ev.Z, 2 * n) /\ ev.Z.m = 2 * n /\ Small(ev.Z) /\ Small(ev.P) /\ Small(ev.Q) /\ SmallE(Wrap2(ev.E))) THEN {"modes:number"} ELSE
       If(Modes(ev.A, n, EE, ev.P, ev.Q), "modes:equation") \cup If(ModesOrtho(ev.P, ev.Q), "modes:orthonormal")
       \cup If(\A k \in 1 .. n : ev.E[k] >= -1, "modes:energies") \cup If(AbsI(2 * ev.shift + sum) <= n + 2, "modes:ground-energy")
       \cup If(Orthonormal(ev.Z), "modes:majorana-orthonormal") \cup If(\A k \in 1 .. n : pair(k), "modes:majorana-equation")
(* the many-body spectrum is that of the modes: vals ascending (2^n), E, shift *)
Fail_cross(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET n == Len(ev.E)
        lev == SortSeq([c \in 1 .. Pow2(n) |-> ev.shift + FoldLeft(LAMBDA a, k : IF Bit(c - 1, k - 1, n) = 1 THEN a + ev.E[k] ELSE a, 0, [k \in 1 .. n |-> k])], LAMBDA a, b : a < b)
    IN If(Len(ev.vals) = Pow2(n) /\ \A c \in 1 .. Len(ev.vals) : AbsI(ev.vals[c] - lev[c]) <= 4 * n + 8, "modes:spectrum")
=============================================================================
