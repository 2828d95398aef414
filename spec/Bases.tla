------------------------------- MODULE Bases -------------------------------
(* Canonical strings supported on sets of labels. *)
EXTENDS QAlgebra

OpsMaps(S, names) == [S -> names]
SpinStrings(t, S) == \* strings with exactly the labels S
    LET labs == SortedSeq(S)
        names == IF t = "P" THEN {"X", "Y", "Z"} ELSE {"A", "B", "D"}
    IN {LET o == [i \in 1 .. Len(labs) |-> m[labs[i]]] IN Str(t, IF t = "P" THEN 0 ELSE MajF(o), o, labs) : m \in [S -> names]}
LexLess(p, q) == \* sequences of the same length
    \E i \in 1 .. Len(p) : p[i] < q[i] /\ \A j \in 1 .. (i - 1) : p[j] = q[j]
FermStr(f, A, B) ==
    LET a == SortedSeq(A) b == Reverse(SortedSeq(B)) IN
    Str("F", f, [i \in 1 .. Len(a) |-> "CDag"] \o [i \in 1 .. Len(b) |-> "C"], a \o b)
(* number-like strings once; otherwise (word + H.c.) and i(word - H.c.-like) for one word of each conjugate pair *)
FermStrings(labels, ks) ==
    LET As == {A \in SUBSET labels : A # {} /\ Cardinality(A) \in ks} IN
    {FermStr(0, A, A) : A \in As}
    \cup UNION {UNION {{FermStr(f, A, B) : f \in {0, 1}} :
                 B \in {X \in SUBSET labels : \/ Cardinality(X) < Cardinality(A)
                                              \/ Cardinality(X) = Cardinality(A) /\ LexLess(SortedSeq(X), SortedSeq(A))}} : A \in As}
ClusterStrings(t, labels, ks) ==
    IF t = "F" THEN FermStrings(labels, ks)
    ELSE UNION {SpinStrings(t, S) : S \in {X \in SUBSET labels : X # {} /\ Cardinality(X) \in ks}}
=============================================================================
