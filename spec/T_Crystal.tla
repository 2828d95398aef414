------------------------------ MODULE T_Crystal ------------------------------
(* Acceptance of recorded lattice calls (C10, C11), lattice symmetrization (C25), and of the transformations built from
   lattices (C12). State of a lattice session: [lat, orbs, regs]: the crystal and its recorded listing of orbitals. *)
EXTENDS Crystal, Bases, T_Base

ListOK(lat, orbs) ==
    If(Len(orbs) = Number(lat), "orbitals:number")
    \cup If(NoDup(orbs), "orbitals:repeated") \cup If(ToS(orbs) = Tiling(lat), "orbitals:tiling")
Fail_lat(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    ListOK(ev.lat, ev.orbs) \cup If(ev.len = Len(ev.orbs), "len")
    \cup If(ev.pos = [k \in 1 .. Len(ev.orbs) |-> ev.orbs[k][1]], "position")
    \cup If(ev.ids = [k \in 1 .. Len(ev.orbs) |-> k - 1], "index-of-listed")
After_lat(s, ev) == [lat |-> ev.lat, orbs |-> ev.orbs]
Fail_latidx(s, ev) == IF ev.exc # "" THEN {"exception"} ELSE If(ev.r = Index(s.lat, s.orbs, ev.x, ev.nm), "index")
(* how: which of the two arguments are indices *)
PosOf(s, a) == IF a.i >= 0 THEN s.orbs[a.i + 1][1] ELSE a.x
Fail_latdist(s, ev) == IF ev.exc # "" THEN {"exception"} ELSE
    If(ev.r = Dist2(s.lat, PosOf(s, ev.a), PosOf(s, ev.b)), "distance")

(* ev: t, ks, R2 (squared radius times gs D^2, rounded down), allowed, inc, r *)
Near2(s, R2, n) == [i \in 1 .. n |-> TLCEval([j \in 1 .. n |-> Dist2(s.lat, s.orbs[i][1], s.orbs[j][1]) <= R2])]
LocalSets(near, U, kmax) == {S \in SUBSET U : S # {} /\ Cardinality(S) <= kmax /\ \A i, j \in S : i < j => near[i + 1][j + 1]}
LocalStrings(t, near, U, ks) ==
    LET kmax == Max(ks \cup {0}) IN
    IF t # "F" THEN UNION {SpinStrings(t, S) : S \in {X \in LocalSets(near, U, kmax) : Cardinality(X) \in ks}}
    ELSE {s \in FermStrings(U, ks) : \A i, j \in ToS(s.l) : near[i + 1][j + 1]}
Fail_distb(s, ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET near == TLCEval(Near2(s, ev.R2, Len(s.orbs)))
        want == LocalStrings(ev.t, near, ToS(ev.allowed), ToS(ev.ks)) \cup (IF ev.inc THEN {IdStr(ev.t)} ELSE {})
    IN If(NoDup(ev.r), "duplicate") \cup If(ToS(ev.r) \subseteq want, "extra") \cup If(want \subseteq ToS(ev.r), "missing")

-----------------------------------------------------------------------------
(* ev: lat, gens, k (expansions), R: the resulting atoms [f, o] in coordinates of the original lattice vectors, vec the new
   lattice vectors in these coordinates, cells the new numbers of cells *)
Mod2(lat, k, x, y) == \A i \in 1 .. lat.d : (x[i] - y[i]) % ((k + 1) * lat.D) = 0
Fail_symlat(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET lat == ev.lat R == ev.R k == ev.k
        G == TLCEval(Group(ToS(ev.gens), lat.d))
        Has(x, o) == \E b \in 1 .. Len(R) : R[b].o = o /\ Mod2(lat, k, R[b].f, x)
    IN If(ev.vec = [i \in 1 .. lat.d |-> [j \in 1 .. lat.d |-> IF i = j THEN (k + 1) * lat.D ELSE 0]], "symmetrized:vectors")
       \cup If(ev.cells = [i \in 1 .. lat.d |-> 1], "symmetrized:one-cell")
       \cup If(ev.per = lat.per, "symmetrized:boundaries")
       \cup If(\A a, b \in 1 .. Len(R) : a < b => ~(R[a].o = R[b].o /\ Mod2(lat, k, R[a].f, R[b].f)), "symmetrized:distinct")
       \cup If(\A a \in 1 .. Len(lat.atoms) : \A c \in [1 .. lat.d -> 0 .. k] :
                  Has([i \in 1 .. lat.d |-> lat.atoms[a].f[i] + lat.D * c[i]], lat.atoms[a].o), "symmetrized:original-atoms")
       \cup If(\A a \in 1 .. Len(R) : \A g \in G : Has(MatVec(g, R[a].f), R[a].o), "symmetrized:invariant")
       \cup If(\A a \in 1 .. Len(R) : \E g \in G : InCrystal(lat, MatVec(g, R[a].f), R[a].o), "symmetrized:image")
=============================================================================
