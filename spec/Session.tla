------------------------------- MODULE Session -------------------------------
(*
 The session machine: what a user of Basis and Operator objects can observe.
 The state is a heap of registers, st = [ty, B, O]:
   ty  the type of each atom (atoms 1..K stand for distinct operator strings),
   B   basis registers: sequences of atoms,
   O   operator registers: [t, q] with q a sequence of <<atom, coefficient>> (t the operator type).
 Step(st, c) is the transition for the command c: the new heap, whether the command is accepted, and the value returned.
 A rejected command leaves the heap unchanged.
*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Gauss

Atoms(q) == {q[i] : i \in 1 .. Len(q)}
Distinct(q) == Cardinality(Atoms(q)) = Len(q)
Union2(p, q) == p \o SelectSeq(q, LAMBDA x : x \notin Atoms(p))
IndexIn(q, x) == IF x \in Atoms(q) THEN CHOOSE i \in 1 .. Len(q) : q[i] = x ELSE 0

(* operators *)
OStr(o) == [i \in 1 .. Len(o.q) |-> o.q[i][1]]
OCoeff(o, x) == LET i == IndexIn(OStr(o), x) IN IF i = 0 THEN G0 ELSE o.q[i][2]
OAddTerms(p, q) ==
    LET u == Union2(OStr(p), OStr(q)) IN
    [p EXCEPT !.q = [i \in 1 .. Len(u) |-> <<u[i], GAdd(OCoeff(p, u[i]), OCoeff(q, u[i]))>>]]
OScale(k, o) == [o EXCEPT !.q = [i \in 1 .. Len(o.q) |-> <<o.q[i][1], GMul(k, o.q[i][2])>>]]
ONonzero(o) == [o EXCEPT !.q = SelectSeq(@, LAMBDA t : t[2] # G0)]
OAbs2(z) == z[1] * z[1] + z[2] * z[2]
ONorm2(o) == FoldLeft(LAMBDA a, t : a + t[2][1] * t[2][1] + t[2][2] * t[2][2], 0, o.q)
(* the norm of order 1 (asked for coefficients on the axes only), the square of that of order 2, of the largest modulus (9) *)
ONormPow(o, p) == CASE p = 1 -> FoldLeft(LAMBDA a, t : a + AbsI(t[2][1]) + AbsI(t[2][2]), 0, o.q)
                    [] p = 9 -> FoldLeft(LAMBDA a, t : IF OAbs2(t[2]) > a THEN OAbs2(t[2]) ELSE a, 0, o.q)
                    [] OTHER -> ONorm2(o)

Acc(st, v) == [st |-> st, ok |-> TRUE, v |-> v]
Rej(st) == [st |-> st, ok |-> FALSE, v |-> <<>>]

(* a command is [c, r, a, b, s, l, k]: name, target and source registers, atom, list of atoms, list of scalars *)
Step(st, c) ==
    LET SetB(r, q) == [st EXCEPT !.B[r] = q]
        SetO(r, o) == [st EXCEPT !.O[r] = o]
    IN
    CASE c.c = "bnew"    -> IF Distinct(c.l) THEN Acc(SetB(c.r, c.l), <<>>) ELSE Rej(st)
      [] c.c = "btwo"    -> \* two bases from one and the same list
                            IF Distinct(c.l) THEN Acc([st EXCEPT !.B[c.r] = c.l, !.B[c.a] = c.l], <<>>) ELSE Rej(st)
      [] c.c = "bempty"  -> Acc(SetB(c.r, <<>>), <<>>)
      [] c.c = "bcopy"   -> Acc(SetB(c.r, st.B[c.a]), <<>>)
      [] c.c = "bgrow"   -> Acc(SetB(c.r, Union2(st.B[c.r], <<c.s>>)), <<>>)
      [] c.c = "bgrowb"  -> Acc(SetB(c.r, Union2(st.B[c.r], st.B[c.a])), <<>>)
      [] c.c = "bsum"    -> Acc(SetB(c.r, Union2(st.B[c.a], st.B[c.b])), <<>>)
      [] c.c = "bsums"   -> Acc(SetB(c.r, Union2(st.B[c.a], <<c.s>>)), <<>>)
      [] c.c = "bfromop" -> Acc(SetB(c.r, OStr(st.O[c.a])), <<>>)
      [] c.c \in {"bbad", "bgrowbad"} -> Rej(st)       \* adding something that is neither string nor basis
      [] c.c = "bindex"  -> IF IndexIn(st.B[c.a], c.s) = 0 THEN Rej(st) ELSE Acc(st, <<IndexIn(st.B[c.a], c.s) - 1>>)
      [] c.c = "bget"    -> IF c.k[1][1] \in 0 .. (Len(st.B[c.a]) - 1) THEN Acc(st, <<st.B[c.a][c.k[1][1] + 1]>>) ELSE Rej(st)
      [] c.c = "onew"    -> IF Distinct(c.l)
                            THEN Acc(SetO(c.r, [t |-> st.ty[c.l[1]], q |-> [i \in 1 .. Len(c.l) |-> <<c.l[i], c.k[i]>>]]), <<>>)
                            ELSE Rej(st)
      [] c.c \in {"onotype", "obad", "ovecbad"} -> Rej(st)   \* no strings and no type; strings of another kind; unknown format
      [] c.c = "ozero"   -> Acc(SetO(c.r, [t |-> st.ty[c.s], q |-> <<>>]), <<>>)
      [] c.c = "ocopy"   -> Acc(SetO(c.r, st.O[c.a]), <<>>)
      [] c.c = "oadd"    -> IF st.O[c.a].t # st.O[c.b].t THEN Rej(st) ELSE Acc(SetO(c.r, OAddTerms(st.O[c.a], st.O[c.b])), <<>>)
      [] c.c = "osub"    -> IF st.O[c.a].t # st.O[c.b].t THEN Rej(st)
                            ELSE Acc(SetO(c.r, OAddTerms(st.O[c.a], OScale(<<-1, 0>>, st.O[c.b]))), <<>>)
      [] c.c = "oiadd"   -> IF st.O[c.r].t # st.O[c.b].t THEN Rej(st) ELSE Acc(SetO(c.r, OAddTerms(st.O[c.r], st.O[c.b])), <<>>)
      [] c.c = "oisub"   -> IF st.O[c.r].t # st.O[c.b].t THEN Rej(st)
                            ELSE Acc(SetO(c.r, OAddTerms(st.O[c.r], OScale(<<-1, 0>>, st.O[c.b]))), <<>>)
      [] c.c = "oneg"    -> Acc(SetO(c.r, OScale(<<-1, 0>>, st.O[c.a])), <<>>)
      [] c.c \in {"omul", "ormul", "onpmul"} -> Acc(SetO(c.r, OScale(c.k[1], st.O[c.a])), <<>>)
      [] c.c = "oclean"  -> \* with a tolerance, only the terms with |coefficient|^2 above it stay
                            Acc(SetO(c.r, IF c.k = <<>> THEN ONonzero(st.O[c.a])
                                          ELSE [st.O[c.a] EXCEPT !.q = SelectSeq(@, LAMBDA t : OAbs2(t[2]) > c.k[1][1])]), <<>>)
      [] c.c = "onorm2"  -> Acc(st, <<IF c.k = <<>> THEN ONorm2(st.O[c.a]) ELSE ONormPow(st.O[c.a], c.k[1][1])>>)
      [] c.c = "ovec"    -> IF Atoms(OStr(st.O[c.a])) \subseteq Atoms(st.B[c.b])
                            THEN Acc(st, [i \in 1 .. Len(st.B[c.b]) |-> OCoeff(st.O[c.a], st.B[c.b][i])])
                            ELSE Rej(st)
      [] c.c = "onormalize" -> \* see T_Session for the normalized operator; afterwards it is multiplied back, or dropped
                               IF c.k[1][2] = 1 THEN Acc(st, <<>>) ELSE Acc(SetO(c.r, [t |-> st.O[c.r].t, q |-> <<>>]), <<>>)
      [] OTHER -> Rej(st)

(* observations *)
BEq(p, q) == p = q
OEq(p, q) == p.t = q.t /\ p.q = q.q
OValue(o, K) == [x \in 1 .. K |-> OCoeff(o, x)]
=============================================================================
