------------------------------ MODULE Strings ------------------------------
(* Descriptions of operator strings: construction, the grammar of names, identity. *)
EXTENDS QAlgebra

OpsOf(t) == CASE t = "P" -> {"X", "Y", "Z"} [] t = "M" -> {"A", "B", "D"} [] t = "F" -> {"C", "CDag"} [] OTHER -> {}
AllOps == OpsOf("P") \cup OpsOf("M") \cup OpsOf("F")
TypeOfOp(o) == CHOOSE t \in {"P", "M", "F"} : o \in OpsOf(t)
Types == {"P", "M", "F"}
Refused == [ok |-> FALSE, s |-> IdStr("-")]
Made(s) == [ok |-> TRUE, s |-> s]
AnyOf(a, b) == {a, b}

(* pf: 0 for 1, 1 for i, 9 for anything else. The set of allowed outcomes: whether a Majorana description that carries a
   senseless prefactor is refused or repaired is left open, all else is determined. *)
Construct(t, pf, o, l) ==
    IF t \notin Types \/ Len(o) # Len(l) \/ (\E i \in 1 .. Len(o) : o[i] \notin OpsOf(t)) THEN {Refused}
    ELSE IF t = "M" THEN {Made(Str(t, MajF(o), o, l))} \cup (IF pf = 9 THEN {Refused} ELSE {})
    ELSE IF pf = 9 \/ (t = "P" /\ pf # 0) THEN {Refused}
    ELSE {Made(Str(t, pf, o, l))}

Evens(q) == [i \in 1 .. (Len(q) \div 2) |-> q[2 * i]]
Odds(q) == [i \in 1 .. ((Len(q) + 1) \div 2) |-> q[2 * i - 1]]
(* tok: the tokens of a name; num: their integer values (-1 if they are none); t: "" or the type asked for *)
Parse(tok, num, t) ==
    IF tok = <<>> \/ (Len(tok) = 1 /\ tok[1] \in {"1", "1.0", "I"})
    THEN (IF t = "" THEN {Refused} ELSE Construct(t, 0, <<>>, <<>>))
    ELSE
    LET pre == IF tok[1] \in AllOps THEN 0 ELSE 1
        good == pre = 0 \/ (Len(tok) >= 2 /\ tok[1] \in {"1", "1.0", "1j"} /\ tok[2] \in AllOps)
        rest == SubSeq(tok, pre + 1, Len(tok))
        rnum == SubSeq(num, pre + 1, Len(num))
        o == Odds(rest)
        l == Evens(rnum)
        pf == IF pre = 1 /\ tok[1] = "1j" THEN 1 ELSE 0
    IN IF ~good THEN {Refused}
       ELSE IF Len(rest) % 2 = 1 THEN {Refused}
       ELSE IF \E i \in 1 .. Len(l) : l[i] < 0 THEN {Refused}
       ELSE IF \E i \in 1 .. Len(o) : o[i] \notin AllOps THEN {Refused}
       ELSE LET ty == TypeOfOp(o[Len(o)]) IN
            IF t # "" /\ t # ty THEN {Refused} ELSE Construct(ty, pf, o, l)
NameTokens(s, txt(_)) == <<IF s.f = 1 THEN "1j" ELSE "1.0">> \o
    [i \in 1 .. 2 * Len(s.o) |-> IF i % 2 = 1 THEN s.o[(i + 1) \div 2] ELSE txt(s.l[i \div 2])]
=============================================================================
