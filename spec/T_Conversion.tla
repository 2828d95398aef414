--------------------------- MODULE T_Conversion ---------------------------
(* Acceptance of recorded conversions (C07), conversion matrices (C08), cluster bases (C09). *)
EXTENDS Bases, T_Base

WellFormed(s) ==
    /\ Len(s.o) = Len(s.l) /\ \A i \in 1 .. Len(s.o) : s.o[i] \in (CASE s.t = "P" -> {"X", "Y", "Z"} [] s.t = "M" -> {"A", "B", "D"} [] OTHER -> {"C", "CDag"})
    /\ s.f = (CASE s.t = "P" -> 0 [] s.t = "M" -> MajF(s.o) [] OTHER -> s.f) /\ s.f \in {0, 1}
AllType(r, t) == \A i \in 1 .. Len(r.s) : r.s[i].t = t
(* ev: A the operator before, to, inc, r the result; str whether a bare string was converted *)
Fail_conv(ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    LET a == DenOp(ev.A) b == DenOp(ev.r) IN
    If(ev.r.x = 1 /\ (IF ev.inc THEN DenEq(a, b) ELSE DenEq(NoId(a), NoId(b))), "value")
    \cup If(ev.r.t = ev.to /\ AllType(ev.r, ev.to), "type") \cup If(NoDup(ev.r.s), "duplicate")
    \cup If(\A i \in 1 .. Len(ev.r.s) : WellFormed(ev.r.s[i]), "well-formed")
    \cup If(ev.A.t = ev.to => ev.r.s = ev.A.s /\ EqScaled(OpFn(ev.A), ev.A.e, OpFn(ev.r), ev.r.e), "same-type")
    \cup If(~ev.inc /\ ev.A.t # ev.to /\ "F" \in {ev.A.t, ev.to} => \A i \in 1 .. Len(ev.r.s) : ev.r.s[i].o # <<>>, "identity")
Fail_convrej(ev) == If(ev.exc # "", "accepted:" \o ev.why)

-----------------------------------------------------------------------------
MShape(M, n, m) == M.x = 1 /\ M.n = n /\ M.m = m
                   /\ \A i \in 1 .. Len(M.a) : M.a[i][1] \in 1 .. n /\ M.a[i][2] \in 1 .. m
(* the columns of M as functions from rows to entries *)
MCols(M, m) == \* one pass
    FoldLeft(LAMBDA F, t : [F EXCEPT ![t[2]] = LAdd1(@, t[1], <<t[3], t[4]>>)], [j \in 1 .. m |-> LZero], M.a)
ColDen(col, DT, e) == \* sum_b col[b] Den(T_b), scaled by 2^e
    LET em == FoldSet(LAMBDA b, acc : MaxI(acc, DT[b].e), 0, DOMAIN col) IN
    [e |-> em + e,
     f |-> FoldSet(LAMBDA b, acc : LAdd(acc, LScale(col[b], Rescale(DT[b].f, DT[b].e, em))), LZero, DOMAIN col)]
Fail_cmat(ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    IF ~MShape(ev.M, Len(ev.T), Len(ev.F)) THEN {"shape"} ELSE
    LET DT == TLCEval([b \in 1 .. Len(ev.T) |-> Den(ev.T[b])])
        cols == TLCEval(MCols(ev.M, Len(ev.F)))
    IN If(\A a \in 1 .. Len(ev.F) : DenEq(NoId(ColDen(cols[a], DT, ev.M.e)), NoId(Den(ev.F[a]))), "column")
(* the same conversion with rearranged or incomplete bases: fi, ti are positions in the complete bases *)
Fail_cmatsub(s, ev) ==
    LET cols == s.cols
        need == UNION {DOMAIN cols[ev.fi[a]] : a \in 1 .. Len(ev.fi)}
        can == need \subseteq ToS(ev.ti)
    IN IF ev.exc # "" THEN If(~can /\ ev.exc # "Timeout", "exception") ELSE
       If(can, "missing-string-accepted") \cup
       IF ~MShape(ev.M, Len(ev.ti), Len(ev.fi)) THEN {"shape"} ELSE
       LET sub == TLCEval(MCols(ev.M, Len(ev.fi))) IN
       If(\A a \in 1 .. Len(ev.fi) : EqScaled(FoldSet(LAMBDA r, acc : LAdd1(acc, ev.ti[r], sub[a][r]), LZero, DOMAIN sub[a]), ev.M.e,
                                              cols[ev.fi[a]], s.e), "rearranged")
(* with a tolerance of 3/4 2^-k: the entries above it *)
Fail_cmattol(s, ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    IF ~MShape(ev.M, ev.n, ev.m) THEN {"shape"} ELSE
    LET sub == TLCEval(MCols(ev.M, ev.m)) IN
    If(\A a \in 1 .. ev.m : LET big == {r \in DOMAIN s.cols[a] : 16 * Pow2(2 * ev.k) * GAbs2(s.cols[a][r]) > 9 * Pow2(2 * s.e)} IN
           EqScaled([r \in big |-> s.cols[a][r]], s.e, sub[a], ev.M.e), "truncated")
(* any bases; conv are conversions of the source strings (judged here, too), whose strings, apart from the identity, must all
   be in the target basis; a missing one is reported by an error *)
Fail_cmatr(ev) ==
    LET DF == TLCEval([a \in 1 .. Len(ev.F) |-> Den(ev.F[a])])
        need == UNION {{ev.conv[a].s[i] : i \in {j \in 1 .. Len(ev.conv[a].s) : ev.conv[a].c[j] # G0}} : a \in 1 .. Len(ev.conv)}
        lost == need \ ToS(ev.T)
        good == \A a \in 1 .. Len(ev.F) : ev.conv[a].x = 1 /\ DenEq(NoId(DenOp(ev.conv[a])), NoId(DF[a]))
    IN IF ~good THEN {"value"} ELSE
       IF ev.exc # "" THEN If(lost # {} /\ ev.exc # "Timeout", "exception") ELSE
       If(\A s \in lost : s.o = <<>>, "missing-string-accepted") \cup
       IF ~MShape(ev.M, Len(ev.T), Len(ev.F)) THEN {"shape"} ELSE
       LET DT == TLCEval([b \in 1 .. Len(ev.T) |-> Den(ev.T[b])])
           cols == TLCEval(MCols(ev.M, Len(ev.F)))
       IN If(\A a \in 1 .. Len(ev.F) : DenEq(NoId(ColDen(cols[a], DT, ev.M.e)), NoId(DF[a])), "column")
After_cmat(s, ev) == [cols |-> MCols(ev.M, Len(ev.F)), e |-> ev.M.e]
(* both directions between complete bases of one cluster *)
Fail_cinv(ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    IF ~(MShape(ev.M, ev.n, ev.n) /\ MShape(ev.N, ev.n, ev.n)) THEN {"shape"} ELSE
    LET mc == TLCEval(MCols(ev.M, ev.n)) nc == TLCEval(MCols(ev.N, ev.n)) IN
    If(\A j \in 1 .. ev.n :
        FoldSet(LAMBDA k, acc : LAdd(acc, LScale(mc[j][k], nc[k])), LZero, DOMAIN mc[j]) = (j :> <<Pow2(ev.M.e + ev.N.e), 0>>), "inverse")

-----------------------------------------------------------------------------
Fail_cluster(ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    LET want == ClusterStrings(ev.t, ToS(ev.labels), ToS(ev.ks)) \cup (IF ev.inc THEN {IdStr(ev.t)} ELSE {}) IN
    If(NoDup(ev.r), "duplicate") \cup If(ToS(ev.r) \subseteq want, "extra") \cup If(want \subseteq ToS(ev.r), "missing")
    \cup If(ev.r2 = ev.r, "label-order")
=============================================================================
