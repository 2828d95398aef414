----------------------------- MODULE MC_Algebra -----------------------------
(* Checks the operator-algebra model itself: the walk m -> m * t over all strings reaches exactly the group generated by
   the strings; at every reachable element the product is associative, unital, Hermitian strings square to one, the Clifford and
   Pauli relations hold, and the products agree with an independent representation on configurations (bits). *)
EXTENDS QAlgebra
CONSTANTS T, N          \* type, number of orbitals
VARIABLE m              \* [k, s]: the element i^k s

Labels == 0 .. N - 1
Strings == IF T = "P" THEN {PauliStr(x, z) : x \in SUBSET Labels, z \in SUBSET Labels}
           ELSE {MajStr(w) : w \in SUBSET (0 .. 2 * N - 1)}
Configs == [Labels -> {0, 1}]
MulE(a, b) == LET r == Mul(a.s, b.s) IN [k |-> (a.k + b.k + r.k) % 4, s |-> r.s]
Elt(s) == [k |-> 0, s |-> s]
Act(s, b) == IF s.t = "P" THEN PauliAct(s, b)
             ELSE LET d == DenMaj(s) a == WordAct(d.w, b) IN [k |-> (d.k + a.k) % 4, b |-> a.b]

Init == m = Elt(IdStr(T))
Next == \E t \in Strings : m' = MulE(m, Elt(t))

TypeOK == m.k \in 0 .. 3 /\ m.s \in Strings /\ Canonical(m.s)
Unit == MulE(m, Elt(IdStr(T))) = m /\ MulE(Elt(IdStr(T)), m) = m
Square == Mul(m.s, m.s) = [k |-> 0, s |-> IdStr(T)]
Assoc == \A t, u \in Strings : MulE(MulE(m, Elt(t)), Elt(u)) = MulE(m, MulE(Elt(t), Elt(u)))
Hermitian == \A t \in Strings : LET a == Mul(m.s, t) b == Mul(t, m.s) IN a.s = b.s /\ (a.k + b.k) % 4 = 0
Represents == \* s (t |b>) = (s t) |b>
    \A t \in Strings : \A b \in Configs :
        LET r == Mul(m.s, t) x == Act(t, b) y == Act(m.s, x.b) z == Act(r.s, b)
        IN y.b = z.b /\ (x.k + y.k) % 4 = (r.k + z.k) % 4
(* the universal denotation of a string acts like the string *)
DenActs == \A b \in Configs :
    LET d == Den(m.s).f w == CHOOSE v \in DOMAIN d : TRUE x == WordAct(w, b) y == Act(m.s, b)
    IN DOMAIN d = {w} /\ x.b = y.b /\ GIPow(x.k, d[w]) = GIPow(y.k, G1)
(* Jacobi identity and bilinearity of the commutator on operators built from m *)
OpOf(s) == [t |-> T, e |-> 0, x |-> 1, c |-> <<G1>>, s |-> <<s>>]
OpFrom(f) == LET q == SetToSeq(DOMAIN f) IN [t |-> T, e |-> 0, x |-> 1, c |-> [i \in 1 .. Len(q) |-> f[q[i]]], s |-> q]
Com(A, B) == OpFrom(OpOp("commutator", A, B))
Jacobi == \A t, u \in Strings :
    LET A == OpOf(m.s) B == OpOf(t) C == OpOf(u) IN
    LAdd(OpFn(Com(A, Com(B, C))), LAdd(OpFn(Com(B, Com(C, A))), OpFn(Com(C, Com(A, B))))) = LZero
(* product = (commutator + anticommutator) / 2 *)
Halves == \A t \in Strings :
    LET p == OpPair("product", m.s, t) c == OpPair("commutator", m.s, t) a == OpPair("anticommutator", m.s, t)
    IN GScale(2, p[1]) = GAdd(c[1], a[1])
=============================================================================
