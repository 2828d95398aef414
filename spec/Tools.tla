------------------------------- MODULE Tools -------------------------------
(* Definitions behind the helper functions: permutations, sorting, graphs, simultaneous substitution. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Inversions(q) == Cardinality({p \in (1 .. Len(q)) \X (1 .. Len(q)) : p[1] < p[2] /\ q[p[1]] > q[p[2]]})
Parity(q) == IF Inversions(q) % 2 = 0 THEN 1 ELSE -1
Ascending(q) == \A i \in 1 .. (Len(q) - 1) : q[i] <= q[i + 1]
CountIn(q, x) == Cardinality({i \in 1 .. Len(q) : q[i] = x})
SameItems(p, q) == Len(p) = Len(q) /\ \A i \in 1 .. Len(p) : CountIn(p, p[i]) = CountIn(q, p[i])
IsPerm0(q) == {q[i] : i \in 1 .. Len(q)} = 0 .. (Len(q) - 1)      \* 0-based permutation
Compare(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE LET d == {i \in 1 .. Len(a) : a[i] # b[i]} IN
         IF d = {} THEN 0 ELSE LET i == Min(d) IN IF a[i] < b[i] THEN -1 ELSE 1
Firsts(q) == \* the items of q in order of first appearance
    FoldLeft(LAMBDA acc, x : IF \E i \in 1 .. Len(acc) : acc[i] = x THEN acc ELSE Append(acc, x), <<>>, q)

(* graphs on 0 .. n-1; adj[v+1] is the sequence of neighbours *)
Nbr(adj, v) == {adj[v + 1][i] : i \in 1 .. Len(adj[v + 1])}
Clique(adj, S) == \A u, v \in S : u # v => v \in Nbr(adj, u)
MaxCliques(adj) == LET V == 0 .. (Len(adj) - 1) IN
    {S \in (SUBSET V) \ {{}} : Clique(adj, S) /\ \A v \in V \ S : ~ (S \subseteq Nbr(adj, v))}
RECURSIVE Spread(_, _)
Spread(adj, S) == LET T == S \cup UNION {Nbr(adj, v) : v \in S} IN IF T = S THEN S ELSE Spread(adj, T)
Components(adj) == {Spread(adj, {v}) : v \in 0 .. (Len(adj) - 1)}
RECURSIVE Level(_, _, _)
Level(adj, S, v) == IF v \in S THEN 0 ELSE 1 + Level(adj, S \cup UNION {Nbr(adj, u) : u \in S}, v)

(* simultaneous substitution: at each position the longest matching name is replaced; names are non-empty *)
MatchesAt(text, i, name) == i + Len(name) - 1 <= Len(text) /\ \A j \in 1 .. Len(name) : text[i + j - 1] = name[j]
RECURSIVE Subst(_, _, _)
Subst(text, i, subs) ==
    IF i > Len(text) THEN <<>>
    ELSE LET hits == {k \in 1 .. Len(subs) : MatchesAt(text, i, subs[k][1])} IN
         IF hits = {} THEN <<text[i]>> \o Subst(text, i + 1, subs)
         ELSE LET k == CHOOSE h \in hits : \A g \in hits : Len(subs[h][1]) >= Len(subs[g][1])
              IN subs[k][2] \o Subst(text, i + Len(subs[k][1]), subs)
=============================================================================
