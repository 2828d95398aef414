----------------------------- MODULE MC_Crystal -----------------------------
(*
 Checks of the crystal model: looking up is the inverse of listing; distances are a metric on the orbitals that does not
 depend on the images chosen (compared with a brute-force search over many images); space-group permutations compose;
 point-group closure is a group and symmetrized crystals exist.
 The state walks over crystals and displacements of the first orbital.
*)
EXTENDS Crystal, Gauss
VARIABLES lat, x
Sq == <<<<2, 0>>, <<0, 2>>>>
Tri == <<<<2, 1>>, <<1, 2>>>>
Skew == <<<<1, 3>>, <<3, 10>>>>
Atoms1 == <<[f |-> <<0, 0>>, o |-> << <<"">> >>]>>
Kag == <<[f |-> <<0, 0>>, o |-> << <<"">> >>], [f |-> <<1, 0>>, o |-> << <<"">> >>], [f |-> <<0, 1>>, o |-> << <<"U">>, <<"D">> >>]>>
Lats == {[d |-> 2, D |-> 2, g |-> g, gs |-> 2, per |-> p, N |-> n, atoms |-> a] :
            g \in {Sq, Tri, Skew}, p \in {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, FALSE>>}, n \in {<<1, 2>>, <<2, 2>>, <<3, 1>>}, a \in {Atoms1, Kag}}
Orbs(l) == SetToSeq(Tiling(l))
Init == lat \in Lats /\ x = <<0, 0>>
(* walk by half lattice vectors, within a window *)
Next == /\ UNCHANGED lat
        /\ \E i \in 1 .. 2, e \in {-1, 1} : x' = [x EXCEPT ![i] = @ + e] /\ x'[i] \in -3 .. 4
Listing == x = <<0, 0>> =>
    LET o == Orbs(lat) IN Len(o) = Number(lat) /\ \A k \in 1 .. Len(o) : Index(lat, o, o[k][1], o[k][2]) = k - 1
Brute == LET L(i) == lat.N[i] * lat.D
             K(i) == IF lat.per[i] THEN -10 .. 10 ELSE {0}
         IN Min({Quad(lat.g, [i \in 1 .. 2 |-> x[i] + k[i] * (IF lat.per[i] THEN L(i) ELSE 0)]) : k \in K(1) \X K(2)})
Zero == <<0, 0>>
Metric == LET q == Dist2(lat, x, Zero) IN
    /\ q = Brute /\ q = Dist2(lat, Zero, x) /\ (q = 0 <=> Same(lat, x, Zero))
    /\ \A i \in 1 .. 2 : lat.per[i] => q = Dist2(lat, [x EXCEPT ![i] = @ + 3 * lat.N[i] * lat.D], Zero)
Ms == {<<<<0, 1>>, <<1, 0>>>>, <<<<-1, 0>>, <<0, -1>>>>, <<<<0, -1>>, <<1, 0>>>>}
Compose == (x \in [1 .. 2 -> {0, 2}] /\ lat.N = <<2, 2>> /\ lat.per = <<TRUE, TRUE>>) =>
    LET o == TLCEval(Orbs(lat)) IN
    \A M1, M2 \in Ms :
        LET p1 == SGPerm(lat, o, M1, x) p2 == SGPerm(lat, o, M2, Zero) IN
        (IsPerm0(p1) /\ IsPerm0(p2)) =>
            [k \in 1 .. Len(o) |-> p1[p2[k] + 1]] = SGPerm(lat, o, MatMul(M1, M2), x)
Groups == \A S \in SUBSET Ms : LET G == Group(S, 2) IN
    /\ IdMat(2) \in G /\ \A a, b \in G : MatMul(a, b) \in G
    /\ \A a \in G : \E b \in G : MatMul(a, b) = IdMat(2)
ASSUME Groups
=============================================================================
