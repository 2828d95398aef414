----------------------------- MODULE MC_Matrix -----------------------------
(* Representations on configurations are faithful: products, Jordan-Wigner words, trace inner products, permutations,
   partial traces, and the commutators of quadratic words with gammas. *)
EXTENDS Matrix
CONSTANTS N
VARIABLES s, t
Subs == SUBSET (0 .. N - 1)
Paulis == {PauliStr(x, z) : x \in Subs, z \in Subs}
Perms0 == {p \in [1 .. N -> 0 .. N - 1] : \A i, j \in 1 .. N : i # j => p[i] # p[j]}
Init == s \in Paulis /\ t \in Paulis
Next == UNCHANGED <<s, t>>
Z0(c) == [k |-> 0, c |-> c]
ProductOK == LET m == Mul(s, t) IN \A c \in Confs(N) :
    LET a == PauliConf(s, PauliConf(t, Z0(c), N), N) b == PauliConf(m.s, Z0(c), N) IN a = [b EXCEPT !.k = (@ + m.k) % 4]
WordOK == LET d == DenPauli(s) IN \A c \in Confs(N) :
    LET a == PauliConf(s, Z0(c), N) b == WordConf(d.w, Z0(c), N) IN a = [b EXCEPT !.k = (@ + d.k) % 4]
TraceOK == LET M == [c \in Confs(N) |-> PauliCol(t :> G1, c, N)] IN TraceWith(s, M, N) = IF s = t THEN <<Pow2(N), 0>> ELSE G0
PermS(p, u) == PauliStr({p[j + 1] : j \in PX(u)}, {p[j + 1] : j \in PZ(u)})
PermOK == \A p \in Perms0 : \A c \in Confs(N) :
    LET a == PauliConf(s, Z0(c), N) b == PauliConf(PermS(p, s), Z0(PermConf(p, c, N)), N) IN b = [a EXCEPT !.c = PermConf(p, a.c, N)]
(* expectation values of strings on the kept orbitals follow from the reduced density matrix *)
State == [c \in Confs(N) |-> <<1 + (c % 3), ((c * c) % 5) - 2>>]
State2 == [c \in Confs(N) |-> <<2 - (c % 4), c % 2>>]
Keeps == {q \in UNION {[1 .. k -> 0 .. N - 1] : k \in 0 .. N} : \A i, j \in 1 .. Len(q) : i # j => q[i] # q[j]}
Apply(u, v) == FoldSet(LAMBDA c, a : LET z == PauliConf(u, Z0(c), N) IN [a EXCEPT ![z.c] = GAdd(@, GIPow(z.k, v[c]))], [c \in Confs(N) |-> G0], Confs(N))
RdmOK == t = s => \A q \in Keeps : \* s relabelled from positions to orbitals
    IF ~(ToSet(s.l) \subseteq 0 .. Len(q) - 1) THEN TRUE ELSE
    LET big == PauliStr({q[j + 1] : j \in PX(s)}, {q[j + 1] : j \in PZ(s)})
        v == Apply(big, State)
        full == FoldSet(LAMBDA c, a : GAdd(a, GMul(GConj(State2[c]), v[c])), G0, Confs(N))
        rho == Rdm(State, State2, q, N) m == Len(q)
        red == FoldSet(LAMBDA a, acc : LET z == PauliConf(s, Z0(a), m) IN GAdd(acc, GIPow(z.k, rho[<<a, z.c>>])), G0, Confs(m))
    IN full = red
AdOK == t = s => \A w \in {x \in SUBSET (0 .. 2 * N - 1) : Cardinality(x) = 2} : \A k \in 0 .. 2 * N - 1 :
    LET A == AdH(w :> G1, N)
        com == LET a == MonMul([k |-> 0, w |-> w], [k |-> 0, w |-> {k}]) b == MonMul([k |-> 0, w |-> {k}], [k |-> 0, w |-> w])
               IN LAdd(a.w :> GIPow(a.k, G1), LClean(b.w :> GIPow(b.k + 2, G1)))
        lin == FoldLeft(LAMBDA f, g : FoldLeft(LAMBDA h, e : IF e[1] = k + 1 THEN LAdd1(h, {g - 1}, e[2]) ELSE h, f, A[g]), LZero, [g \in 1 .. 2 * N |-> g])
    IN com = lin
=============================================================================
