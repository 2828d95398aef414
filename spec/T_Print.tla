------------------------------ MODULE T_Print ------------------------------
(* Acceptance of printed and relabelled operators (C24). The state is that of a lattice session (T_Crystal). *)
EXTENDS Print, QAlgebra, T_Base

(* text: characters; r: characters *)
Fail_relab(s, ev) == IF ev.exc # "" THEN {"exception"} ELSE If(ev.r = RelabelText(ev.text, s.lat, s.orbs), "relabelled")

(* q: fixed-point coefficients (over 2^14) of a normalized operator with the integer coefficients c; ord: 2, 1, or 0 for the maximum *)
Sum14(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
NormalizedTo(c, q, ord) ==
    LET n == Len(c)
        b == CHOOSE i \in 1 .. n : \A j \in 1 .. n : GAbs2(c[i]) >= GAbs2(c[j])
        tol == 2 * (AbsI(c[b][1]) + AbsI(c[b][2])) + 2
        w == GMul(q[b], GConj(c[b]))
    IN /\ \A i \in 1 .. n : AbsI(q[i][1]) <= 16385 /\ AbsI(q[i][2]) <= 16385
       /\ \A i \in 1 .. n : GNear(GMul(c[i], q[b]), GMul(q[i], c[b]), tol)
       /\ w[1] > 0 /\ AbsI(w[2]) <= tol
       /\ CASE ord = 2 -> AbsI(Sum14([i \in 1 .. n |-> (q[i][1] * q[i][1]) \div 16384 + (q[i][2] * q[i][2]) \div 16384]) - 16384) <= 40
            [] ord = 1 -> AbsI(Sum14([i \in 1 .. n |-> AbsI(q[i][1])]) - 16384) <= n + 2 \* real coefficients
            [] OTHER -> AbsI((q[b][1] * q[b][1]) \div 16384 + (q[b][2] * q[b][2]) \div 16384 - 16384) <= 10
(* one printed operator: A the operator; B the operator after the requested conversion (A itself without one); tol: the squared
   tolerance times 4^e; terms: printed [c, s] *)
Fail_block(b, ord) ==
    LET keep == SelectSeq([i \in 1 .. Len(b.B.s) |-> i], LAMBDA i : GAbs2(b.B.c[i]) > b.tol)
        c == [i \in 1 .. Len(keep) |-> b.B.c[keep[i]]]
    IN If(b.conv # "" => DenEq(IF b.A.t = "F" \/ b.conv = "F" THEN NoId(DenOp(b.A)) ELSE DenOp(b.A), IF b.A.t = "F" \/ b.conv = "F" THEN NoId(DenOp(b.B)) ELSE DenOp(b.B)) /\ (b.B.s # <<>> => b.B.t = b.conv), "print:conversion")
       \cup IF ~(Len(b.terms) = Len(keep) /\ \A i \in 1 .. Len(keep) : b.terms[i].s = b.B.s[keep[i]]) THEN {"print:terms"} ELSE
            If(keep = <<>> \/ NormalizedTo(c, [i \in 1 .. Len(keep) |-> b.terms[i].c], ord), "print:coefficients")
(* ev: kind, heads (what the headers say), blocks, ord; kw, lines: the lines with lattice and keywords, raw: without;
   relab: whether the lattice of the session was given; filt: whether keywords were *)
Fail_pr(s, ev) == IF ev.exc # "" THEN {"exception"} ELSE
    IF ~(ev.heads = [i \in 1 .. Len(ev.blocks) |-> i] /\ ev.heads2 = ev.heads) THEN {"print:headers"} ELSE
    UNION {Fail_block(ev.blocks[i], ev.ord) : i \in 1 .. Len(ev.blocks)}
    \cup UNION {LET b == ev.blocks[i]
                    names == IF ev.relab THEN TLCEval([k \in 1 .. Len(s.orbs) |-> OrbText(s.lat, s.orbs[k])]) ELSE <<>>
                    lab == IF ev.relab THEN [j \in 1 .. Len(b.raw) |-> Relabel(b.raw[j], 1, s.lat, names)] ELSE b.raw
                IN If(b.lines = (IF ev.filt THEN KeepLines(lab, ev.kw) ELSE lab), "print:lines") : i \in 1 .. Len(ev.blocks)}
(* str(): A operator, B basis or one string; terms printed *)
Fail_strs(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    CASE ev.what = "op" -> If(Len(ev.terms) = Len(ev.A.s) /\ \A i \in 1 .. Len(ev.A.s) : ev.terms[i].s = ev.A.s[i] /\ ev.terms[i].c = ev.A.c[i], "str:operator")
      [] OTHER -> If(ev.names = ev.B, "str:strings")
Fail_prrej(ev) == If(ev.exc = "ValueError", "rejection:" \o ev.why)
=============================================================================
