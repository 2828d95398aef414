------------------------------ MODULE Crystal ------------------------------
(*
 Crystals in integer coordinates. A lattice is a record
   d     dimension,
   D     denominator: positions are integer vectors in units of (lattice vectors)/D,
   g     Gram matrix of the lattice vectors times the scale gs,
   per   periodicity of each direction (booleans),   N  number of cells in each direction,
   atoms the unit cell: sequence of [f: position, o: orbital names].
 Names are sequences of one-letter strings.
*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Tools

VAdd(u, v) == [i \in 1 .. Len(u) |-> u[i] + v[i]]
VSub(u, v) == [i \in 1 .. Len(u) |-> u[i] - v[i]]
SumF(f(_), n) == FoldLeft(LAMBDA a, i : a + f(i), 0, [i \in 1 .. n |-> i])
Dot(u, v) == CASE Len(u) = 1 -> u[1] * v[1] [] Len(u) = 2 -> u[1] * v[1] + u[2] * v[2] [] OTHER -> u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
MatVec(M, v) == TLCEval([i \in 1 .. Len(M) |-> Dot(M[i], v)])
Quad(g, v) == Dot(MatVec(g, v), v)

(* determinant and diagonal cofactors for d <= 3 *)
Det(M) ==
    CASE Len(M) = 1 -> M[1][1]
      [] Len(M) = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
      [] OTHER -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
                  + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
Minor(M, i) == LET n == Len(M) q == SelectSeq([k \in 1 .. n |-> k], LAMBDA k : k # i)
               IN IF n = 1 THEN 1 ELSE Det([a \in 1 .. n - 1 |-> [b \in 1 .. n - 1 |-> M[q[a]][q[b]]]])

-----------------------------------------------------------------------------
Cells(N) == {c \in [1 .. Len(N) -> 0 .. Max({N[i] : i \in 1 .. Len(N)})] : \A i \in 1 .. Len(N) : c[i] < N[i]}
Site(lat, c, a) == [i \in 1 .. lat.d |-> lat.D * c[i] + lat.atoms[a].f[i]]
(* the orbitals, as a bag: <<position, name, cell>> is listed once for each occurrence *)
Tiling(lat) == UNION {UNION {{<<Site(lat, c, a), lat.atoms[a].o[k], c>> : k \in 1 .. Len(lat.atoms[a].o)} : a \in 1 .. Len(lat.atoms)} : c \in Cells(lat.N)}
Number(lat) == SumF(LAMBDA a : Len(lat.atoms[a].o), Len(lat.atoms)) * FoldLeft(LAMBDA x, n : x * n, 1, lat.N)
(* equal modulo the periods *)
Same(lat, x, y) == \A i \in 1 .. lat.d :
    IF lat.per[i] THEN (x[i] - y[i]) % (lat.N[i] * lat.D) = 0 ELSE x[i] = y[i]
(* orbs: the listing, sequence of <<position, name, ..>>; the index (from 0) of the orbital at x, or -1 *)
Index(lat, orbs, x, name) ==
    LET hit == {k \in 1 .. Len(orbs) : orbs[k][2] = name /\ Same(lat, orbs[k][1], x)}
    IN IF hit = {} THEN -1 ELSE Min(hit) - 1

(* the smallest squared distance, times gs D^2, between the periodic images of x and y *)
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) == \* least r in lo .. hi with r * r >= n
    IF lo >= hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m >= n THEN ISqrt(n, lo, m) ELSE ISqrt(n, m + 1, hi)
ISqrtUp(n) == ISqrt(n, 0, 46340)
MinSet(S) == FoldSet(LAMBDA a, b : IF a < b THEN a ELSE b, 2147483647, S)
Dist2(lat, x, y) ==
    LET per == lat.per
        L == TLCEval([i \in 1 .. lat.d |-> lat.N[i] * lat.D])
        \* centered representative
        v0 == TLCEval([i \in 1 .. lat.d |-> LET v == x[i] - y[i] IN IF per[i] THEN ((v + L[i] \div 2) % L[i]) - L[i] \div 2 ELSE v])
        q0 == TLCEval(Quad(lat.g, v0))
        det == Det(lat.g)
        \* an image w that is not longer has w[i]^2 det <= q0 minor_i
        bnd == TLCEval([i \in 1 .. lat.d |-> ISqrtUp((q0 * Minor(lat.g, i)) \div det + 1)])
        ks == TLCEval([i \in 1 .. lat.d |-> IF per[i] THEN {k \in (-(bnd[i] \div L[i]) - 2) .. (bnd[i] \div L[i] + 2) : v0[i] + k * L[i] \in (-bnd[i]) .. bnd[i]} ELSE {0}])
        Im(i) == IF per[i] THEN {v0[i] + k * L[i] : k \in ks[i]} ELSE {v0[i]}
        ws == CASE lat.d = 1 -> {<<a>> : a \in Im(1)}
                [] lat.d = 2 -> Im(1) \X Im(2)
                [] OTHER -> Im(1) \X Im(2) \X Im(3)
    IN MinSet({q0} \cup {Quad(lat.g, w) : w \in ws})

-----------------------------------------------------------------------------
(* space-group operation x -> M x + t, in lattice coordinates *)
SGPerm(lat, orbs, M, t) == [k \in 1 .. Len(orbs) |-> Index(lat, orbs, VAdd(MatVec(M, orbs[k][1]), t), orbs[k][2])]
FlipPerm(lat, orbs, up, dn) == [k \in 1 .. Len(orbs) |-> Index(lat, orbs, orbs[k][1], Subst(orbs[k][2], 1, <<<<up, dn>>, <<dn, up>>>>))]
HasName(text, name) == \E i \in 1 .. Len(text) : MatchesAt(text, i, name)
DownSet(orbs, dn) == {k - 1 : k \in {j \in 1 .. Len(orbs) : HasName(orbs[j][2], dn)}}

(* point group generated by integer matrices *)
MatMul(A, B) == [i \in 1 .. Len(A) |-> [j \in 1 .. Len(A) |-> LET t(k) == A[i][k] * B[k][j] IN SumF(t, Len(A))]]
IdMat(n) == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN 1 ELSE 0]]
RECURSIVE Closure(_, _)
Closure(S, gens) == LET T == S \cup {MatMul(a, b) : a \in S, b \in gens} IN IF T = S THEN S ELSE Closure(T, gens)
Group(gens, n) == Closure({IdMat(n)}, gens)
(* The crystal: all lattice translates of the atoms <<f, orbitals>> of the unit cell. *)
InCrystal(lat, x, o) == \E a \in 1 .. Len(lat.atoms) : lat.atoms[a].o = o /\ \A i \in 1 .. lat.d : (x[i] - lat.atoms[a].f[i]) % lat.D = 0
=============================================================================
