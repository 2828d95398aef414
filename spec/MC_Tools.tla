------------------------------ MODULE MC_Tools ------------------------------
(* Cross-checks of the definitions: parity is a homomorphism; insertion sort (the state machine below) performs exactly
   Inversions many adjacent swaps; maximal cliques and components characterised independently; substitution machine. *)
EXTENDS Tools, TLC
CONSTANTS NV, MaxVal, NG
VARIABLES q, q0, swaps, g
Vecs == UNION {[1 .. n -> 0 .. MaxVal] : n \in 0 .. NV}
Edges == {e \in (0 .. (NG - 1)) \X (0 .. (NG - 1)) : e[1] < e[2]}
Adj(E) == [i \in 1 .. NG |-> SetToSeq({j \in 0 .. (NG - 1) : <<i - 1, j>> \in E \/ <<j, i - 1>> \in E})]
Init == \/ q \in Vecs /\ q0 = q /\ swaps = 0 /\ g = {}
        \/ g \in SUBSET Edges /\ q = <<>> /\ q0 = <<>> /\ swaps = 0
(* bubble any adjacent inversion *)
Next == \E i \in 1 .. (Len(q) - 1) : q[i] > q[i + 1] /\ q' = [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]]
            /\ swaps' = swaps + 1 /\ UNCHANGED <<q0, g>>
SwapCount == Inversions(q) + swaps = Inversions(q0) /\ SameItems(q, q0) /\ (Inversions(q) = 0 <=> Ascending(q))
Perms == {p \in [1 .. 4 -> 0 .. 3] : IsPerm0(p)}
ASSUME \A p, r \in Perms : Parity([i \in 1 .. 4 |-> p[r[i] + 1]]) = Parity(p) * Parity(r)
ASSUME \A a, b \in {x \in Vecs : Len(x) <= 2} : Compare(a, b) = -Compare(b, a) /\ (Compare(a, b) = 0 <=> a = b)
Graphs == LET a == Adj(g) c == MaxCliques(a) k == Components(a) IN
    /\ UNION c = 0 .. (NG - 1) /\ (\A x, y \in c : x \subseteq y => x = y)
    /\ \A e \in g : \E x \in c : {e[1], e[2]} \subseteq x
    /\ UNION k = 0 .. (NG - 1) /\ (\A x, y \in k : x # y => x \cap y = {}) /\ (\A x \in c : \E y \in k : x \subseteq y)
ASSUME Subst(<<"1", "2", "1">>, 1, <<<<<<"1">>, <<"2">>>>, <<<<"2">>, <<"1">>>>>>) = <<"2", "1", "2">>
ASSUME Subst(<<"1", "2", "1">>, 1, <<<<<<"1">>, <<"x">>>>, <<<<"1", "2">>, <<"y">>>>>>) = <<"y", "x">>
=============================================================================
