-------------------------------- MODULE Lie --------------------------------
(*
 Lie algebras of Hermitian operators with the bracket -i[A, B].
 Strings: the bracket of two strings is a string (up to a factor) or zero, so the algebra generated by a set of strings
 is spanned by the closure of that set.
 Operators: the algebra generated by g_1..g_n is spanned by the left-normed brackets [g_i1, [g_i2, ...]]; a certificate
 lists pairs <<i, j>>: element n + k is (a multiple of) the bracket of generator i with the earlier element j.
*)
EXTENDS QAlgebra, LinAlg

Br(s, t) == LET r == OpPair("commutator", s, t) IN IF r[1] = G0 THEN {} ELSE {r[2]}
StrRound(S) == S \cup UNION {UNION {Br(s, t) : t \in S} : s \in S}
RECURSIVE StrClosure(_, _)
StrClosure(S, new) == \* brackets with the new strings only
    LET T == (UNION {UNION {Br(s, t) : t \in S} : s \in new}) \ S IN IF T = {} THEN S ELSE StrClosure(S \cup T, T)

(* combinations with integer coefficients: -i[f, g], divided by the common divisor *)
FBracket(f, g) ==
    FoldSet(LAMBDA s, acc : FoldSet(LAMBDA t, a :
        LET r == OpPair("commutator", s, t) IN LAdd1(a, r[2], GIPow(3, GMul(r[1], GMul(f[s], g[t])))), acc, DOMAIN g), LZero, DOMAIN f)
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN a ELSE GcdI(b, a % b)
Content(f) == FoldSet(LAMBDA s, a : GcdI(GcdI(a, AbsI(f[s][1])), AbsI(f[s][2])), 0, DOMAIN f)
Primitive(f) == IF f = LZero THEN f ELSE LET c == Content(f) IN [s \in DOMAIN f |-> <<f[s][1] \div c, f[s][2] \div c>>]
Elements(gens, pairs) == \* gens: sequence of combinations
    FoldLeft(LAMBDA q, p : Append(q, TLCEval(Primitive(FBracket(gens[p[1]], q[p[2]])))), gens, pairs)
ValidPairs(pairs, n) == \A k \in 1 .. Len(pairs) : pairs[k][1] \in 1 .. n /\ pairs[k][2] \in 1 .. (n + k - 1)
Vec(f, U) == [i \in 1 .. Len(U) |-> LGet(f, U[i])]
=============================================================================
