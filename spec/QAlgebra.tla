------------------------------ MODULE QAlgebra ------------------------------
(*
 Operator strings and their exact algebra, from first principles.

 A string is a record [t, f, o, l]: type "P" (Pauli), "M" (Majorana) or "F" (fermion), prefactor i^f,
 factor names o and orbital labels l, in order.

 Pauli strings are the monomials i^{|x & z|} X^x Z^z of a pair of label sets (symplectic form).
 Majorana strings are phases times words gamma_S (increasing products over a finite set S of naturals) in the Clifford
 algebra gamma_g gamma_h + gamma_h gamma_g = 2 delta_gh, with a_j = gamma_{2j}, b_j = gamma_{2j+1}, d_j = -i a_j b_j.
 Den maps all three types into that one algebra (Jordan-Wigner for Pauli strings, c_j = (a_j + i b_j)/2 for fermions),
 which is what "acts identically on Fock space" means.
*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Gauss

Str(t, f, o, l) == [t |-> t, f |-> f, o |-> o, l |-> l]
IdStr(t) == Str(t, 0, <<>>, <<>>)
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
IsIncreasing(q) == \A i \in 1 .. (Len(q) - 1) : q[i] < q[i + 1]

-----------------------------------------------------------------------------
(* Pauli strings *)
PX(s) == {s.l[i] : i \in {j \in 1 .. Len(s.l) : s.o[j] \in {"X", "Y"}}}
PZ(s) == {s.l[i] : i \in {j \in 1 .. Len(s.l) : s.o[j] \in {"Y", "Z"}}}
PauliStr(x, z) ==
    LET labs == SortedSeq(x \cup z) IN
    Str("P", 0,
        [i \in 1 .. Len(labs) |-> IF labs[i] \in x THEN (IF labs[i] \in z THEN "Y" ELSE "X") ELSE "Z"],
        labs)
MulPauli(s, t) ==
    LET x1 == PX(s) z1 == PZ(s) x2 == PX(t) z2 == PZ(t)
        x3 == SymDiff(x1, x2) z3 == SymDiff(z1, z2)
    IN [k |-> (Cardinality(x1 \cap z1) + Cardinality(x2 \cap z2) - Cardinality(x3 \cap z3)
                 + 2 * Cardinality(z1 \cap x2)) % 4,
        s |-> PauliStr(x3, z3)]

-----------------------------------------------------------------------------
(* gamma words: a monomial is [k, w] standing for i^k gamma_w *)
MonId == [k |-> 0, w |-> {}]
MonTimesGamma(m, g) ==     \* multiply by gamma_g on the right
    [k |-> (m.k + 2 * Cardinality({h \in m.w : h > g})) % 4, w |-> SymDiff(m.w, {g})]
MonMul(m, n) ==
    [k |-> (m.k + n.k + 2 * FoldSet(LAMBDA b, acc : acc + Cardinality({a \in m.w : a > b}), 0, n.w)) % 4,
     w |-> SymDiff(m.w, n.w)]
HcSign(w) == LET n == Cardinality(w) IN (n * (n - 1)) \div 2   \* gamma_w^dagger = (-1)^HcSign gamma_w

(* one Majorana factor applied on the right *)
MonTimesMaj(m, op, j) ==
    CASE op = "A" -> MonTimesGamma(m, 2 * j)
      [] op = "B" -> MonTimesGamma(m, 2 * j + 1)
      [] OTHER -> LET n == MonTimesGamma(MonTimesGamma(m, 2 * j), 2 * j + 1) IN [n EXCEPT !.k = (@ + 3) % 4]
DenMaj(s) ==
    FoldLeft(LAMBDA m, i : MonTimesMaj(m, s.o[i], s.l[i]), [k |-> s.f, w |-> {}], [i \in 1 .. Len(s.l) |-> i])
(* the prefactor exponent that makes a Majorana string Hermitian *)
MajF(ops) == LET n == Cardinality({i \in 1 .. Len(ops) : ops[i] \in {"A", "B"}}) IN ((n * (n - 1)) \div 2) % 2
MajStr(w) ==
    LET labs == SortedSeq({g \div 2 : g \in w})
        ops == [i \in 1 .. Len(labs) |->
                  IF 2 * labs[i] \in w THEN (IF 2 * labs[i] + 1 \in w THEN "D" ELSE "A") ELSE "B"]
    IN Str("M", MajF(ops), ops, labs)
MulMaj(s, t) ==
    LET m == MonMul(DenMaj(s), DenMaj(t))
        r == MajStr(m.w)
    IN [k |-> (m.k - DenMaj(r).k) % 4, s |-> r]

(* s * t = i^k r for strings of the same (Pauli or Majorana) type *)
Mul(s, t) == IF s.t = "P" THEN MulPauli(s, t) ELSE MulMaj(s, t)
Canonical(s) ==
    /\ IsIncreasing(s.l) /\ Len(s.l) = Len(s.o)
    /\ s.t = "M" => s.f = MajF(s.o)
    /\ s.t = "P" => s.f = 0

(* mode in "product", "commutator", "anticommutator": <<coefficient, string>>; strings are Hermitian, so
   t s = (s t)^dagger = i^{-k} r *)
OpPair(mode, s, t) ==
    LET m == Mul(s, t) IN
    IF mode = "product" THEN <<GIPow(m.k, G1), m.s>>
    ELSE IF mode = "commutator" THEN <<IF m.k % 2 = 0 THEN G0 ELSE GIPow(m.k, <<2, 0>>), m.s>>
    ELSE <<IF m.k % 2 = 1 THEN G0 ELSE GIPow(m.k, <<2, 0>>), m.s>>

-----------------------------------------------------------------------------
(* Finite linear combinations: functions from keys to non-zero Gaussian integers. *)
LZero == <<>>    \* the function with empty domain
LClean(f) == LET D == {w \in DOMAIN f : f[w] # G0} IN [w \in D |-> f[w]]
LGet(f, w) == IF w \in DOMAIN f THEN f[w] ELSE G0
LAdd(f, g) == LClean([w \in (DOMAIN f) \cup (DOMAIN g) |-> GAdd(LGet(f, w), LGet(g, w))])
LScale(c, f) == IF c = G0 THEN LZero ELSE [w \in DOMAIN f |-> GMul(c, f[w])]
LAdd1(f, w, c) == IF c = G0 THEN f ELSE LClean((w :> GAdd(LGet(f, w), c)) @@ f)

(* An operator event value is [t, e, c, s]: the terms c[i] / 2^e * s[i]. As a combination of strings: *)
OpFn(op) == FoldLeft(LAMBDA f, i : LAdd1(f, op.s[i], op.c[i]), LZero, [i \in 1 .. Len(op.s) |-> i])
Rescale(f, from, to) == IF from = to THEN f ELSE LScale(<<Pow2(to - from), 0>>, f)
EqScaled(f, ef, g, eg) ==
    LET m == MaxI(ef, eg) IN Rescale(f, ef, m) = Rescale(g, eg, m)

(* bilinear extension of OpPair; exponents add *)
OpOp(mode, A, B) ==
    FoldLeft(LAMBDA f, i :
        FoldLeft(LAMBDA g, j :
            LET r == OpPair(mode, A.s[i], B.s[j]) IN LAdd1(g, r[2], GMul(r[1], GMul(A.c[i], B.c[j]))),
            f, [j \in 1 .. Len(B.s) |-> j]),
        LZero, [i \in 1 .. Len(A.s) |-> i])

-----------------------------------------------------------------------------
(* Universal denotation: [e, f] with f a function from gamma words to Gaussian integers, denominator 2^e. *)
RECURSIVE DString(_)
DString(j) == IF j = 0 THEN MonId ELSE MonTimesMaj(DString(j - 1), "D", j - 1)   \* d_0 ... d_{j-1}
DenPauli(s) ==
    FoldLeft(LAMBDA m, i :
        LET j == s.l[i] IN
        CASE s.o[i] = "Z" -> MonTimesMaj(m, "D", j)
          [] s.o[i] = "X" -> MonMul(m, MonTimesMaj(DString(j), "A", j))
          [] OTHER -> MonMul(m, MonTimesMaj(DString(j), "B", j)),
        MonId, [i \in 1 .. Len(s.l) |-> i])

LMonR(f, g) == \* combination times gamma_g
    [w \in {SymDiff(v, {g}) : v \in DOMAIN f} |->
        LET v == SymDiff(w, {g}) IN GIPow(2 * Cardinality({h \in v : h > g}), f[v])]
LHc(f) == [w \in DOMAIN f |-> GIPow(2 * HcSign(w), GConj(f[w]))]
FermWord(s) == \* product of the factors times 2^Len
    FoldLeft(LAMBDA f, i :
        LET j == s.l[i] A == LMonR(f, 2 * j) B == LMonR(f, 2 * j + 1)
        IN LAdd(A, LScale(IF s.o[i] = "C" THEN GI ELSE <<0, -1>>, B)),
        ({} :> G1), [i \in 1 .. Len(s.l) |-> i])
FCdag(s) == SelectSeq([i \in 1 .. Len(s.l) |-> IF s.o[i] = "CDag" THEN s.l[i] ELSE -1], LAMBDA v : v >= 0)
FC(s) == SelectSeq([i \in 1 .. Len(s.l) |-> IF s.o[i] = "C" THEN s.l[i] ELSE -1], LAMBDA v : v >= 0)
FType1(s) == FCdag(s) = Reverse(FC(s))   \* number-like strings carry no Hermitian conjugate
DenFerm(s) ==
    LET w == LScale(GIPow(s.f, G1), FermWord(s)) IN
    IF FType1(s) THEN w ELSE LAdd(w, LHc(w))

Den(s) ==
    CASE s.t = "P" -> LET m == DenPauli(s) IN [e |-> 0, f |-> (m.w :> GIPow(m.k, G1))]
      [] s.t = "M" -> LET m == DenMaj(s) IN [e |-> 0, f |-> (m.w :> GIPow(m.k, G1))]
      [] OTHER -> [e |-> Len(s.l), f |-> DenFerm(s)]
DenAdd(A, B) ==
    LET m == MaxI(A.e, B.e) IN [e |-> m, f |-> LAdd(Rescale(A.f, A.e, m), Rescale(B.f, B.e, m))]
DenOp(op) ==
    LET r == FoldLeft(LAMBDA acc, i : LET d == Den(op.s[i]) IN DenAdd(acc, [d EXCEPT !.f = LScale(op.c[i], @)]),
                      [e |-> 0, f |-> LZero], [i \in 1 .. Len(op.s) |-> i])
    IN [r EXCEPT !.e = @ + op.e]
DenEq(A, B) == EqScaled(A.f, A.e, B.f, B.e)
NoId(A) == LET D == (DOMAIN A.f) \ {{}} IN [A EXCEPT !.f = [w \in D |-> A.f[w]]]

-----------------------------------------------------------------------------
(* Action on configurations: bit of orbital j of configuration b (a function on 0..n-1 to {0,1});
   X flips, Z|0> = |0>, Z|1> = -|1>, Y = iXZ.  Result [k, b]: s|b> = i^k |b'>. *)
PauliAct(s, b) ==
    [k |-> (Cardinality(PX(s) \cap PZ(s)) + 2 * Cardinality({j \in PZ(s) : b[j] = 1})) % 4,
     b |-> [j \in DOMAIN b |-> IF j \in PX(s) THEN 1 - b[j] ELSE b[j]]]
(* gamma_g on a Fock configuration, independently of DenPauli: a_j, b_j flip bit j with the sign of the occupied
   orbitals below j;  a = c + c^dagger, b = -i(c - c^dagger) *)
GammaAct(g, b) ==
    LET j == g \div 2
        sg == 2 * Cardinality({i \in DOMAIN b : i < j /\ b[i] = 1})
    IN [k |-> (sg + (IF g % 2 = 0 THEN 0 ELSE IF b[j] = 1 THEN 3 ELSE 1)) % 4,
        b |-> [b EXCEPT ![j] = 1 - @]]
WordAct(w, b) == \* gamma_w = product in increasing order, the rightmost (largest) acts first
    FoldLeft(LAMBDA r, g : LET a == GammaAct(g, r.b) IN [k |-> (r.k + a.k) % 4, b |-> a.b],
             [k |-> 0, b |-> b], Reverse(SortedSeq(w)))
=============================================================================
