------------------------------- MODULE LinAlg -------------------------------
(* Exact rank over Z[i] by elimination modulo primes p = 1 mod 4 (so that -1 has a square root), and fixed-point tests. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Gauss

P1 == 46337
P2 == 46309
RECURSIVE PowMod(_, _, _)
PowMod(a, n, p) ==
    IF n = 0 THEN 1
    ELSE LET h == PowMod(a, n \div 2, p) hh == (h * h) % p IN IF n % 2 = 0 THEN hh ELSE (hh * a) % p
SqrtM1(p) == LET g == CHOOSE x \in 2 .. 50 : PowMod(x, (p - 1) \div 2, p) = p - 1 IN PowMod(g, (p - 1) \div 4, p)
I1 == SqrtM1(P1)
I2 == SqrtM1(P2)
GMod(g, p, im) == ((g[1] % p) + ((g[2] % p) * im)) % p
InvMod(a, p) == PowMod(a, p - 2, p)

(* rows: sequence of equally long sequences over F_p; the rank by forward elimination *)
RowReduce(row, piv, p) == \* piv: sequence of [c, r] with r[c] = 1
    FoldLeft(LAMBDA v, q : LET a == v[q.c] IN
                IF a = 0 THEN v ELSE TLCEval([i \in 1 .. Len(v) |-> (v[i] + (p - a) * q.r[i]) % p]), row, piv)
RankMod(rows, p) ==
    Len(FoldLeft(LAMBDA piv, row :
            LET v == TLCEval(RowReduce(row, piv, p))
                nz == {i \in 1 .. Len(v) : v[i] # 0}
            IN IF nz = {} THEN piv
               ELSE LET c == CHOOSE i \in nz : \A j \in nz : i <= j
                        inv == InvMod(v[c], p)
                    IN Append(piv, [c |-> c, r |-> TLCEval([i \in 1 .. Len(v) |-> (v[i] * inv) % p])]),
        <<>>, rows))
(* matrix of Gaussian integers, as a sequence of rows *)
ModMat(M, p, im) == [i \in 1 .. Len(M) |-> TLCEval([j \in 1 .. Len(M[i]) |-> GMod(M[i][j], p, im)])]
Rank(M) == IF Len(M) = 0 THEN 0
           ELSE LET a == RankMod(TLCEval(ModMat(M, P1, I1)), P1)
                    m == MinI(Len(M), Len(M[1]))
                IN IF a = m THEN a ELSE MaxI(a, RankMod(TLCEval(ModMat(M, P2, I2)), P2))
Transpose(M, ncol) == [j \in 1 .. ncol |-> [i \in 1 .. Len(M) |-> M[i][j]]]

SumSeqI(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
GDot(u, v) == FoldLeft(LAMBDA a, i : GAdd(a, GMul(u[i], v[i])), G0, [i \in 1 .. Len(u) |-> i])
GInner(u, v) == FoldLeft(LAMBDA a, i : GAdd(a, GMul(GConj(u[i]), v[i])), G0, [i \in 1 .. Len(u) |-> i])
L1(u) == FoldLeft(LAMBDA a, x : a + AbsI(x[1]) + AbsI(x[2]), 0, u)

(* Fixed-point columns: R = [e, x, n, m, v], entries scaled by 2^e. *)
GramNear(R, i, j, want) == \* <R_i, R_j> = want (0 or 1) within 2^-9
    LET g == GInner(R.v[i], R.v[j]) one == Pow2(2 * R.e) tol == Pow2(2 * R.e - 9)
    IN GNear(g, <<want * one, 0>>, tol)
UnitCols(R) == \A i \in 1 .. R.m : GramNear(R, i, i, 1)
Orthonormal(R) == \A i, j \in 1 .. R.m : i <= j => GramNear(R, i, j, IF i = j THEN 1 ELSE 0)
ColShape(R, n) == R.n = n /\ Len(R.v) = R.m /\ \A j \in 1 .. R.m : Len(R.v[j]) = n
(* an integer row annihilates a fixed-point column *)
RowKills(row, u) == LET t == L1(row) \div 2 + 3 IN GNear(GDot(row, u), G0, t)
(* rows: integer certificates that describe span(cols) as a kernel; exact *)
KernelOf(rows, cols, n) ==
    /\ \A i \in 1 .. Len(rows) : \A j \in 1 .. Len(cols) : GDot(rows[i], cols[j]) = G0
    /\ (IF rows = <<>> THEN 0 ELSE Rank(rows)) = n - (IF cols = <<>> THEN 0 ELSE Rank(cols))
InKernel(rows, R) == \A j \in 1 .. R.m : \A i \in 1 .. Len(rows) : RowKills(rows[i], R.v[j])
(* W (rows, scaled by 2^we) is a left inverse of R: hence R has independent columns *)
LeftInverse(W, we, R) ==
    Len(W) = R.m /\ \A i, j \in 1 .. R.m :
        GNear(GDot(W[i], R.v[j]), IF i = j THEN <<Pow2(we + R.e), 0>> ELSE G0, Pow2(we + R.e - 4))
(* lam (over 2^14, below 2^21) times u (over 2^14, below 2^15): over 2^14, rounded *)
MulFix(lam, u) == ((lam \div 128) * u) \div 128 + ((lam % 128) * u) \div 16384
GMulFix(lam, u) == <<MulFix(lam[1], u[1]) - MulFix(lam[2], u[2]), MulFix(lam[1], u[2]) + MulFix(lam[2], u[1])>>
=============================================================================
