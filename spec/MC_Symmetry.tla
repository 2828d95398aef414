---------------------------- MODULE MC_Symmetry ----------------------------
(* The generator of symmetric operators as a machine: symmetries are added one at a time and the joint space of solutions
   shrinks; it does not depend on the order, contains the known conserved quantities and has the dimensions that
   representation theory predicts for the full operator space on two sites. *)
EXTENDS Symmetry, Bases
VARIABLES Y
P(o, l) == Str("P", 0, o, l)
M(o, l) == Str("M", 0, o, l)
Op(t, c, q) == [t |-> t, e |-> 0, x |-> 1, c |-> [i \in 1 .. Len(c) |-> <<c[i], 0>>], s |-> q]
Space(t) == LET q == SetToSeq(ClusterStrings(t, {0, 1}, 1 .. 2) \cup {IdStr(t)}) IN [i \in 1 .. Len(q) |-> StrOp(q[i])]
SpP == Space("P")
SpM == Space("M")
OpSym(o, m) == [kind |-> "op", O |-> o, mode |-> m]
TrSym(w, m) == [kind |-> "tr", w |-> w, mode |-> m]
TotZ == Op("P", <<1, 1>>, <<P(<<"Z">>, <<0>>), P(<<"Z">>, <<1>>)>>)
TotX == Op("P", <<1, 1>>, <<P(<<"X">>, <<0>>), P(<<"X">>, <<1>>)>>)
Heis == Op("P", <<1, 1, 1>>, <<P(<<"X", "X">>, <<0, 1>>), P(<<"Y", "Y">>, <<0, 1>>), P(<<"Z", "Z">>, <<0, 1>>)>>)
NumM == Op("M", <<1, 1>>, <<M(<<"D">>, <<0>>), M(<<"D">>, <<1>>)>>)
ParM == Op("M", <<1>>, <<M(<<"D", "D">>, <<0, 1>>)>>)
Swap == <<[k |-> "perm", p |-> <<1, 0>>]>>
SymsP == <<OpSym(TotZ, "commutator"), OpSym(TotX, "commutator"), OpSym(Heis, "commutator"), OpSym(Heis, "anticommutator"),
           TrSym(Swap, "commutator"), TrSym(Swap, "anticommutator"), TrSym(<<[k |-> "tr"]>>, "commutator")>>
SymsM == <<OpSym(NumM, "commutator"), OpSym(ParM, "commutator"), OpSym(ParM, "anticommutator"), TrSym(Swap, "commutator"),
           TrSym(<<[k |-> "tr"]>>, "commutator"), TrSym(<<[k |-> "ph"]>>, "anticommutator")>>
RowsP == TLCEval([i \in 1 .. Len(SymsP) |-> RowsOf(SymCols(SymsP[i], SpP))])
RowsM == TLCEval([i \in 1 .. Len(SymsM) |-> RowsOf(SymCols(SymsM[i], SpM))])
Rows(t) == IF t = "P" THEN RowsP ELSE RowsM
Joint(t, q) == FoldLeft(LAMBDA acc, i : acc \o Rows(t)[i], <<>>, q)
Dim(t, q) == 16 - RankRows(Joint(t, q))
Init == \E t \in {"P", "M"} : Y = [t |-> t, q |-> <<>>]
Next == \E i \in 1 .. Len(Rows(Y.t)) : Len(Y.q) < 3 /\ i \notin ToSet(Y.q) /\ Y' = [Y EXCEPT !.q = Append(@, i)]
Shrinks == Y.q = <<>> \/ Dim(Y.t, Y.q) <= Dim(Y.t, Front(Y.q))
OrderFree == Dim(Y.t, Y.q) = Dim(Y.t, SetToSortSeq(ToSet(Y.q), <))
(* joint dimension within the single ones *)
Within == \A i \in ToSet(Y.q) : Dim(Y.t, Y.q) <= Dim(Y.t, <<i>>)
(* dimensions of commutants: sums of squares of multiplicities *)
Known == Y.t = "P" =>
    /\ (Y.q = <<1>> => Dim("P", Y.q) = 6) /\ (Y.q = <<2>> => Dim("P", Y.q) = 6)
    /\ (Y.q = <<3>> => Dim("P", Y.q) = 10) /\ (Y.q = <<4>> => Dim("P", Y.q) = 0)
    /\ (ToSet(Y.q) = {1, 2} => Dim("P", Y.q) = 2) /\ (ToSet(Y.q) = {5} => Dim("P", Y.q) = 10) /\ (ToSet(Y.q) = {6} => Dim("P", Y.q) = 6)
KnownM == Y.t = "M" =>
    /\ (Y.q = <<1>> => Dim("M", Y.q) = 6) /\ (Y.q = <<2>> => Dim("M", Y.q) = 8) /\ (Y.q = <<3>> => Dim("M", Y.q) = 8)
    /\ ({2, 3} \subseteq ToSet(Y.q) => Dim("M", Y.q) = 0)
(* a permutation symmetry alone and the symmetrized basis: one operator per orbit that does not cancel *)
Orbits == (Y.t = "P" /\ Y.q = <<5>>) \/ (Y.t = "M" /\ Y.q = <<4>>) =>
    LET U == {(IF Y.t = "P" THEN SpP ELSE SpM)[i].s[1] : i \in 1 .. 16}
        orbs == {OrbitSupport(SOrbit(x, {Swap})) : x \in {z \in U : ~Cancels(SOrbit(z, {Swap}))}}
    IN Cardinality(orbs) = Dim(Y.t, Y.q)
=============================================================================
