------------------------------- MODULE Matrix -------------------------------
(*
 Representations of operators on configurations of n orbitals (bit strings, numbers 0 .. 2^n - 1, the first orbital is the
 most significant bit), state vectors as functions from configurations to Gaussian integers, and free fermions.
*)
EXTENDS QAlgebra

Bit(c, j, n) == (c \div Pow2(n - 1 - j)) % 2
FlipBit(c, j, n) == IF Bit(c, j, n) = 1 THEN c - Pow2(n - 1 - j) ELSE c + Pow2(n - 1 - j)
Confs(n) == 0 .. Pow2(n) - 1
(* z = [k, c] stands for i^k |c> *)
ActX(z, j, n) == [z EXCEPT !.c = FlipBit(@, j, n)]
ActZ(z, j, n) == [z EXCEPT !.k = (@ + 2 * Bit(z.c, j, n)) % 4]
ActY(z, j, n) == [k |-> (z.k + 1 + 2 * Bit(z.c, j, n)) % 4, c |-> FlipBit(z.c, j, n)]
PauliConf(s, z, n) ==
    FoldLeft(LAMBDA y, i : CASE s.o[i] = "X" -> ActX(y, s.l[i], n) [] s.o[i] = "Y" -> ActY(y, s.l[i], n) [] OTHER -> ActZ(y, s.l[i], n),
             z, [i \in 1 .. Len(s.l) |-> i])
(* gamma_2j = Z_0 .. Z_(j-1) X_j, gamma_(2j+1) = Z_0 .. Z_(j-1) Y_j *)
GammaConf(g, z, n) ==
    LET j == g \div 2 y == FoldLeft(LAMBDA x, l : ActZ(x, l - 1, n), z, [l \in 1 .. j |-> l])
    IN IF g % 2 = 0 THEN ActX(y, j, n) ELSE ActY(y, j, n)
WordConf(w, z, n) == FoldLeft(LAMBDA y, g : GammaConf(g, y, n), z, Reverse(SortedSeq(w)))
(* column c of an operator given as a combination of strings, resp. of gamma words: function from configurations *)
PauliCol(f, c, n) == FoldSet(LAMBDA s, a : LET z == PauliConf(s, [k |-> 0, c |-> c], n) IN LAdd1(a, z.c, GIPow(z.k, f[s])), LZero, DOMAIN f)
WordCol(f, c, n) == FoldSet(LAMBDA w, a : LET z == WordConf(w, [k |-> 0, c |-> c], n) IN LAdd1(a, z.c, GIPow(z.k, f[w])), LZero, DOMAIN f)
(* 2^n times the coefficient of a string in a matrix, given by columns *)
TraceWith(s, M, n) == FoldSet(LAMBDA c, a : LET z == PauliConf(s, [k |-> 0, c |-> c], n) IN GAdd(a, GMul(GConj(GIPow(z.k, G1)), LGet(M[c], z.c))), G0, Confs(n))

(* permutation of the orbitals: orbital j goes to p[j+1] *)
PermConf(p, c, n) == FoldLeft(LAMBDA a, j : a + Bit(c, j - 1, n) * Pow2(n - 1 - p[j]), 0, [j \in 1 .. n |-> j])
PermVec(p, v, n) == \* v: function on Confs
    LET inv == TLCEval([c \in Confs(n) |-> CHOOSE b \in Confs(n) : PermConf(p, b, n) = c]) IN [c \in Confs(n) |-> v[inv[c]]]
(* configuration with the bits of a on the orbitals of the sequence q (in this order) and the bits of b on the others *)
Others(q, n) == SelectSeq([j \in 1 .. n |-> j - 1], LAMBDA j : \A i \in 1 .. Len(q) : q[i] # j)
Merge(a, q, b, r, n) ==
    FoldLeft(LAMBDA x, i : x + Bit(a, i - 1, Len(q)) * Pow2(n - 1 - q[i]), 0, [i \in 1 .. Len(q) |-> i])
    + FoldLeft(LAMBDA x, i : x + Bit(b, i - 1, Len(r)) * Pow2(n - 1 - r[i]), 0, [i \in 1 .. Len(r) |-> i])
Rdm(u, v, q, n) == \* entry <<a, a'>>
    LET r == Others(q, n) IN
    TLCEval([x \in Confs(Len(q)) \X Confs(Len(q)) |->
        FoldSet(LAMBDA b, s : GAdd(s, GMul(u[Merge(x[1], q, b, r, n)], GConj(v[Merge(x[2], q, b, r, n)]))), G0, Confs(Len(r)))])
MatMul(A, B, m) == TLCEval([x \in (0 .. m - 1) \X (0 .. m - 1) |-> FoldSet(LAMBDA k, s : GAdd(s, GMul(A[<<x[1], k>>], B[<<k, x[2]>>])), G0, 0 .. m - 1)])
MatTrace(A, m) == FoldSet(LAMBDA k, s : GAdd(s, A[<<k, k>>]), G0, 0 .. m - 1)
RECURSIVE MatPow(_, _, _)
MatPow(A, k, m) == IF k = 1 THEN A ELSE MatMul(MatPow(A, k - 1, m), A, m)

(* free fermions: f, a combination of gamma words. [H, sum_k x_k gamma_k] for the quadratic words of f, x: sequence, x[k+1] *)
Quadratic(f) == \A w \in DOMAIN f : Cardinality(w) \in {0, 2}
AdH(f, N) == \* 2N x 2N: row g, sequence of <<k, coefficient>> with coefficient of gamma_g in [H, gamma_k]
    TLCEval([g \in 1 .. 2 * N |->
        LET W == {w \in DOMAIN f : Cardinality(w) = 2 /\ g - 1 \in w} IN
        SetToSeq({LET h == CHOOSE y \in w : y # g - 1 IN <<h + 1, GScale(IF g - 1 < h THEN 2 ELSE -2, f[w])>> : w \in W})])
=============================================================================
