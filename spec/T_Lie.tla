------------------------------- MODULE T_Lie -------------------------------
(* Acceptance of generated Lie algebras (C17). *)
EXTENDS Lie, T_Base

(* ev: B strings; r: strings returned *)
Fail_lie_str(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET S == StrClosure(ToS(ev.B), ToS(ev.B)) n == Len(ev.B) IN
    If(NoDup(ev.r), "lie:duplicate") \cup If(Len(ev.r) >= n /\ SubSeq(ev.r, 1, n) = ev.B, "lie:generators-first")
    \cup If(S \subseteq ToS(ev.r), "lie:closed") \cup If(ToS(ev.r) \subseteq S, "lie:minimal")

(* alternative certificate of independence: integer columns Z parallel to those of R, of full rank *)
IntegerForm(Z, R) ==
    /\ Len(Z) = R.m /\ \A j \in 1 .. R.m :
          /\ Len(Z[j]) = R.n
          /\ LET p == CHOOSE i \in 1 .. R.n : \A k \in 1 .. R.n : AbsI(Z[j][i]) >= AbsI(Z[j][k]) IN
                \A k \in 1 .. R.n : AbsI(Z[j][p] * R.v[j][k][1] - Z[j][k] * R.v[j][p][1]) <= AbsI(Z[j][p]) + AbsI(Z[j][k])
    /\ Rank([j \in 1 .. R.m |-> [i \in 1 .. R.n |-> <<Z[j][i], 0>>]]) = R.m

(* ev: B generators; U: strings of the algebra; pairs, NA: certificate; n: number returned; gens: the first Len(B)
   returned, exact; R: columns of all returned over U, real part only if real = TRUE; W, we: left inverse *)
Fail_lie_ops(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET gens == [i \in 1 .. Len(ev.B) |-> Primitive(OpFn(ev.B[i]))] n == Len(gens) IN
    IF ~ValidPairs(ev.pairs, n) THEN {"bad-certificate"} ELSE
    LET el == TLCEval(Elements(gens, ev.pairs)) m == Len(el)
        US == ToS(ev.U) vec == TLCEval([j \in 1 .. m |-> Vec(el[j], ev.U)])
        cert == /\ \A j \in 1 .. m : DOMAIN el[j] \subseteq US
                /\ KernelOf(ev.NA, vec, Len(ev.U)) /\ Rank(vec) = m
                /\ \A i \in 1 .. n : \A j \in 1 .. m : LET b == FBracket(gens[i], el[j]) IN
                       DOMAIN b \subseteq US /\ \A k \in 1 .. Len(ev.NA) : GDot(ev.NA[k], Vec(b, ev.U)) = G0
    IN If(cert, "bad-certificate")
       \cup If(ev.n >= n /\ Len(ev.first) = n /\ \A i \in 1 .. n : EqScaled(OpFn(ev.first[i]), ev.first[i].e, OpFn(ev.B[i]), ev.B[i].e), "lie:generators-first")
       \cup If(ev.n = m, "lie:dimension") \cup If(ev.stray = <<>>, "lie:minimal")
       \cup IF ev.stray # <<>> THEN {} ELSE
            IF ~(ColShape(ev.R, Len(ev.U)) /\ ColShape(ev.Q, Len(ev.U)) /\ ev.Q.m = ev.R.m) THEN {"lie:shape"} ELSE
            If(InKernel(ev.NA, ev.R), "lie:minimal") \cup If(IF ev.Z = <<>> /\ ev.W = <<>> /\ ev.R.m > 0 THEN ev.sigma >= 4 ELSE IF ev.Z = <<>> THEN LeftInverse(ev.W, ev.we, ev.Q) ELSE IntegerForm(ev.Z, ev.Q), "lie:independent")
            \cup If(\A j \in 1 .. ev.R.m : \A i \in 1 .. ev.R.n : AbsI(ev.R.v[j][i][2]) <= 2, "lie:hermitian")
=============================================================================
