------------------------------ MODULE Explore ------------------------------
(*
 The cached exploration of commutators with a Hamiltonian. A Hamiltonian is a sequence of terms [s, c] (string, integer
 coefficient). The machine keeps: eb, the strings explored so far; xb, the strings found; tab, per term a set of entries
 <<row in xb, column in eb, k>>, meaning [eb[column], term] = 2 i^k xb[row]. A query with a basis B first explores the
 strings of B that are not in eb, then reads its answer off the table only.
*)
EXTENDS QAlgebra

IndexOf(q, x) == CHOOSE i \in 1 .. Len(q) : q[i] = x
HasElem(q, x) == \E i \in 1 .. Len(q) : q[i] = x
AddNew(q, x) == IF HasElem(q, x) THEN q ELSE Append(q, x)
Empty(H) == [eb |-> <<>>, xb |-> <<>>, tab |-> [h \in 1 .. Len(H) |-> {}]]
Touches(h, A) == \E i \in 1 .. Len(h.s.l) : h.s.l[i] \in A
Considered(H, all, A) == {h \in 1 .. Len(H) : all \/ Touches(H[h], A)}

ExploreOne(H, c, b) == \* explore one more string
    IF HasElem(c.eb, b) THEN c ELSE
    LET found == FoldLeft(LAMBDA q, h : LET r == OpPair("commutator", b, H[h].s) IN IF r[1] = G0 THEN q ELSE AddNew(q, r[2]),
                          c.xb, [h \in 1 .. Len(H) |-> h])
        n == Len(c.eb) + 1
    IN [eb |-> Append(c.eb, b), xb |-> found,
        tab |-> [h \in 1 .. Len(H) |-> LET r == OpPair("commutator", b, H[h].s) IN
                    IF r[1] = G0 THEN c.tab[h] ELSE c.tab[h] \cup {<<IndexOf(found, r[2]), n, r[1]>>}]]
ExploreAll(H, c, B) == FoldLeft(LAMBDA d, b : ExploreOne(H, d, b), c, B)

(* the answer read off the cache: columns as combinations of strings, and the strings that occur *)
Answer(H, c, B, all, A) ==
    LET hs == Considered(H, all, A) IN
    [cols |-> [j \in 1 .. Len(B) |->
                 LET p == IndexOf(c.eb, B[j]) IN
                 FoldSet(LAMBDA h, f : FoldSet(LAMBDA t, g : IF t[2] = p THEN LAdd1(g, c.xb[t[1]], GScale(H[h].c, t[3])) ELSE g, f, c.tab[h]),
                         LZero, hs)],
     ext |-> UNION {{c.xb[t[1]] : t \in {u \in c.tab[h] : \E j \in 1 .. Len(B) : c.eb[u[2]] = B[j]}} : h \in hs}]
(* the answer without any cache *)
Direct(H, B, all, A) ==
    LET hs == Considered(H, all, A) IN
    [cols |-> [j \in 1 .. Len(B) |->
                 FoldSet(LAMBDA h, f : LET r == OpPair("commutator", B[j], H[h].s) IN LAdd1(f, r[2], GScale(H[h].c, r[1])), LZero, hs)],
     ext |-> UNION {UNION {LET r == OpPair("commutator", B[j], H[h].s) IN IF r[1] = G0 THEN {} ELSE {r[2]} : h \in hs} : j \in 1 .. Len(B)}]
=============================================================================
