----------------------------- MODULE T_Algebra -----------------------------
(* Acceptance of recorded algebra calls (C01, C02, C06). Each Fail_x(ev) is the set of violated clauses. *)
EXTENDS QAlgebra, T_Base

ModeSet == {"product", "commutator", "anticommutator"}
Idx(q) == [i \in 1 .. Len(q) |-> i]

Fail_pair(ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    UNION { LET want == OpPair(m, ev.a, ev.b) got == ev.r[m] IN
            IF want[1] = G0 THEN If(~got.has /\ got.x = 1 /\ got.c = G0, m \o ":zero")
            ELSE If(got.has, m \o ":string-missing")
                 \cup If(got.x = 1 /\ got.c = want[1], m \o ":coefficient")
                 \cup If(got.s = want[2], m \o ":string")
          : m \in ModeSet }
Fail_pairrej(ev) == If(\A i \in 1 .. Len(ev.x) : ev.x[i] # "", "accepted")

Fail_opop(ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    If(ev.r.x = 1 /\ EqScaled(OpOp(ev.mode, ev.A, ev.B), ev.A.e + ev.B.e, OpFn(ev.r), ev.r.e), ev.mode \o ":value")
    \cup If(NoDup(ev.r.s), "duplicate") \cup If(ev.r.t = ev.A.t, "type")
    \cup If(\A i \in 1 .. Len(ev.r.s) : ev.r.s[i].t = ev.A.t, "string-type")
Fail_oprej(ev) == If(\A i \in 1 .. Len(ev.x) : ev.x[i] # "", "accepted:" \o ev.why)

(* sparse matrices: [e, x, n, m, a] with a a sequence of <<row, col, re, im>>; entries with equal position add up *)
MCol(M, j) == FoldLeft(LAMBDA f, t : IF t[2] = j THEN LAdd1(f, t[1], <<t[3], t[4]>>) ELSE f, LZero, M.a)
MColStr(M, j, ext) == \* column as a combination of strings
    FoldLeft(LAMBDA f, t : IF t[2] = j THEN LAdd1(f, ext[t[1]], <<t[3], t[4]>>) ELSE f, LZero, M.a)
InShape(M) == \A i \in 1 .. Len(M.a) : M.a[i][1] \in 1 .. M.n /\ M.a[i][2] \in 1 .. M.m

Occurring(mode, As, Bs) ==
    { OpPair(mode, a, b)[2] : <<a, b>> \in { p \in As \X Bs : OpPair(mode, p[1], p[2])[1] # G0 } }

Fail_sc(ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    If(NoDup(ev.ext), "ext:duplicate")
    \cup If(ToS(ev.ext) = Occurring(ev.mode, ToS(ev.A), ToS(ev.B)), "ext:set")
    \cup If(ev.nm = Len(ev.B) /\ Len(ev.mats) = Len(ev.B), "matrices:number")
    \cup UNION { LET M == ev.mats[b] IN
                 IF ~ (M.x = 1 /\ M.n = Len(ev.ext) /\ M.m = Len(ev.A) /\ InShape(M)) THEN {"matrix:shape"} ELSE
                 If(\A a \in 1 .. Len(ev.A) :
                      LET r == OpPair(ev.mode, ev.A[a], ev.B[b]) IN
                      EqScaled(LAdd1(LZero, r[2], r[1]), 0, MColStr(M, a, ev.ext), M.e), "matrix:value")
               : b \in 1 .. Len(ev.mats) }

LInner(f, g) == \* sum over keys of conj(f) g
    FoldSet(LAMBDA w, acc : GAdd(acc, GMul(GConj(f[w]), g[w])), G0, (DOMAIN f) \cap (DOMAIN g))
StrsOf(ops) == UNION {ToS(ops[i].s) : i \in 1 .. Len(ops)}
Fail_liou(ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    LET n == Len(ev.B)
        col == TLCEval([j \in 1 .. n |-> OpOp(ev.mode, ev.B[j], ev.O)])
        e == IF n = 0 THEN 0 ELSE ev.B[1].e + ev.O.e
        L == ev.L C == ev.C
    IN If(NoDup(ev.ext), "ext:duplicate")
       \cup If(ToS(ev.ext) = Occurring(ev.mode, StrsOf(ev.B), ToS(ev.O.s)), "ext:set")
       \cup If(ev.same, "variants-differ")
       \cup IF ~ (L.x = 1 /\ L.n = Len(ev.ext) /\ L.m = n /\ InShape(L)) THEN {"L:shape"} ELSE
            If(\A j \in 1 .. n : EqScaled(col[j], e, MColStr(L, j, ev.ext), L.e), "L:value")
       \cup IF ~ (C.x = 1 /\ C.n = n /\ C.m = n /\ InShape(C)) THEN {"C:shape"} ELSE
            LET two == Pow2(2 * e) IN
            If(\A j \in 1 .. n : LET cc == MCol(C, j) IN
                \A i \in 1 .. n : LET a == LInner(col[i], col[j]) b == LGet(cc, i) IN
                    IF C.e <= 2 * e THEN GScale(Pow2(2 * e - C.e), b) = a ELSE GScale(Pow2(C.e - 2 * e), a) = b,
               "C:value")
=============================================================================
