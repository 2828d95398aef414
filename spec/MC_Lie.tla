------------------------------- MODULE MC_Lie -------------------------------
(* Generation of a Lie algebra of strings as a machine that adds one bracket at a time: whatever the order, a run can only
   stop at the closure, which is a Lie algebra of known dimension (so(k), su(2^n), ...); the bracket of operators satisfies
   the Jacobi identity and left-normed brackets span. *)
EXTENDS Lie, Bases
VARIABLES G, S
P(o, l) == Str("P", 0, o, l)
Z(j) == P(<<"Z">>, <<j>>)
X(j) == P(<<"X">>, <<j>>)
M(o, l) == Str("M", MajF(o), o, l)
Gens == {[s |-> {X(0), Z(0)}, d |-> 3], [s |-> {X(0), Z(1)}, d |-> 2],
         [s |-> {X(0), X(1), P(<<"Z", "Z">>, <<0, 1>>)}, d |-> 6],
         [s |-> {X(0), Z(0), X(1), Z(1), P(<<"Z", "Z">>, <<0, 1>>)}, d |-> 15],
         [s |-> {P(<<"X", "X">>, <<0, 1>>), P(<<"Y", "Y">>, <<0, 1>>), P(<<"Z", "Z">>, <<0, 1>>)}, d |-> 3],
         [s |-> {M(<<"A">>, <<0>>), M(<<"B">>, <<0>>), M(<<"A">>, <<1>>)}, d |-> 6],
         [s |-> {M(<<"A">>, <<0>>), M(<<"B">>, <<0>>), M(<<"A">>, <<1>>), M(<<"B">>, <<1>>)}, d |-> 10],
         [s |-> {M(<<"D">>, <<0>>), M(<<"A", "B">>, <<0, 1>>), M(<<"D">>, <<1>>)}, d |-> 6],
         [s |-> {M(<<"D">>, <<0>>), M(<<"A", "A">>, <<0, 1>>), M(<<"D">>, <<1>>)}, d |-> 6]}
Init == \E g \in Gens : G = g /\ S = g.s
Next == \E s, t \in S : \E r \in Br(s, t) : r \notin S /\ S' = S \cup {r} /\ UNCHANGED G
Cl == StrClosure(G.s, G.s)
Within == S \subseteq Cl
StopsClosed == (StrRound(S) = S) <=> (S = Cl)
Dimension == Cardinality(Cl) = G.d
Fixpoint == StrRound(Cl) = Cl
Mon(s) == (s :> G1)
Jacobi == \A a, b \in G.s : \A c \in S :
    LAdd(FBracket(Mon(a), FBracket(Mon(b), Mon(c))), LAdd(FBracket(Mon(b), FBracket(Mon(c), Mon(a))), FBracket(Mon(c), FBracket(Mon(a), Mon(b))))) = LZero
Hermitian == \A a, b \in S : LET f == FBracket(Mon(a), Mon(b)) IN \A s \in DOMAIN f : f[s][2] = 0
=============================================================================
