----------------------------- MODULE T_Session -----------------------------
(* Acceptance of recorded string descriptions (C03) and of basis/operator sessions (C04, C05). *)
EXTENDS Strings, Session, T_Base

Fail_mkstr(ev) == If(\E r \in Construct(ev.t, ev.pf, ev.o, ev.l) : r.ok = ev.r.ok /\ r.s = ev.r.s, "construct")
Fail_parse(ev) == If(\E r \in Parse(ev.tok, ev.num, ev.t) : r.ok = ev.r.ok /\ r.s = ev.r.s, "parse")
Fail_name(ev) ==
    LET n == NameTokens(ev.s, ToString)
        tail == SubSeq(n, 2, Len(n))
    IN If(Len(ev.toks) >= Len(tail) /\ Len(ev.toks) <= Len(n)
            /\ SubSeq(ev.toks, Len(ev.toks) - Len(tail) + 1, Len(ev.toks)) = tail, "name:factors")
       \cup If(ev.back.ok /\ ev.back.s = ev.s, "name:parse-typed")
       \cup If(ev.back2.ok /\ ev.back2.s = ev.s, "name:parse")
Fail_streq(ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    LET e == ev.a = ev.b IN
    If(ev.eq = e /\ ev.qe = e, "equality") \cup If(e => ev.hash, "hash") \cup If(e => ev.names, "name")
    \cup If(ev.n = (IF e THEN 1 ELSE 2) /\ ev.nd = ev.n, "set-member") \cup If(ev.inb = e, "basis-member")
    \cup If(ev.grow = (IF e THEN 1 ELSE 2), "basis-grow")

-----------------------------------------------------------------------------
SessInit(ev) == [ty |-> ev.ty, B |-> [r \in 1 .. ev.nb |-> <<>>], O |-> [r \in 1 .. ev.no |-> [t |-> ev.ty[1], q |-> <<>>]]]
SessAfter(s, ev) == Step(s, ev.cmd).st

(* ln: the printed lines, each as the list of atoms whose name it shows *)
LinesB(ln, q) == Len(ln) = Len(q) /\ \A i \in 1 .. Len(q) : q[i] \in ToS(ln[i])
SeesB(o, q, K) ==
    If(o.q = q, "strings") \cup If(o.it = q, "iteration") \cup If(o.n = Len(q), "length") \cup If(o.get = q, "positional")
    \cup If(o.idx = [x \in 1 .. K |-> IndexIn(q, x)], "index") \cup If(o.has = [x \in 1 .. K |-> x \in Atoms(q)], "member")
    \cup If(LinesB(o.ln, q), "printed")
SeesO(o, v) ==
    If(o.t = v.t, "op-type") \cup If(o.n2 \in {-5, ONorm2(v)}, "op-norm") \cup If(o.x = 1 /\ o.q = v.q, "op-terms") \cup If(o.n = Len(v.q) /\ o.nc = Len(v.q), "op-length")
    \cup If(Len(o.ln) = Len(v.q) /\ \A i \in 1 .. Len(v.q) : v.q[i][1] \in ToS(o.ln[i][1]) /\ v.q[i][2] = o.ln[i][2], "op-printed")
Fail_sstep(s, ev) ==
    IF ev.exc # "" THEN {"observation:" \o ev.exc} ELSE
    LET x == Step(s, ev.cmd)
        y == x.st
        K == Len(s.ty)
        c == ev.cmd
    IN If(x.ok = ev.ok, "outcome:" \o c.c) \cup If(ev.ok /\ x.ok => ev.v = x.v, "value:" \o c.c)
       \cup (IF ev.look = 0 THEN {} ELSE      \* not every step is followed by a look at the heap
            UNION {SeesB(ev.B[r], y.B[r], K) : r \in 1 .. Len(y.B)}
            \cup UNION {SeesO(ev.O[r], y.O[r]) : r \in 1 .. Len(y.O)}
            \cup If(ev.beq = [p \in 1 .. Len(y.B) |-> [q \in 1 .. Len(y.B) |-> BEq(y.B[p], y.B[q])]], "basis-equality")
            \cup If(ev.oeq = [p \in 1 .. Len(y.O) |-> [q \in 1 .. Len(y.O) |-> OEq(y.O[p], y.O[q])]], "op-equality"))
       \cup IF c.c # "onormalize" \/ ~ev.ok THEN {} ELSE
            \* nv (fixed point, 2^14) is a positive multiple of the value before, with unit norm
            LET o == s.O[c.r]
                big == CHOOSE i \in 1 .. Len(o.q) : \A j \in 1 .. Len(o.q) : GAbs2(o.q[i][2]) >= GAbs2(o.q[j][2])
                a == o.q[big][2] w == ev.nv[big]
            IN IF ev.ns # OStr(o) THEN {"normalize:terms"} ELSE
               If(\A i \in 1 .. Len(o.q) : GNear(GMul(o.q[i][2], w), GMul(ev.nv[i], a), 2 * (AbsI(a[1]) + AbsI(a[2])) + 2), "normalize:direction")
               \cup If(LET p == GMul(w, GConj(a)) IN p[1] > 0 /\ AbsI(p[2]) <= 2 * (AbsI(a[1]) + AbsI(a[2])) + 2, "normalize:phase")
               \cup If(GNear(ev.n1, <<16384, 0>>, 2), "normalize:norm")
               \cup If(LET sq == FoldLeft(LAMBDA t, g : t + (g[1] * g[1]) \div 16384 + (g[2] * g[2]) \div 16384, 0, ev.nv)
                          mod == FoldLeft(LAMBDA t, g : t + AbsI(g[1]) + AbsI(g[2]), 0, ev.nv)
                      IN CASE c.k[1][1] = 1 -> AbsI(mod - 16384) <= 2 * Len(ev.nv) + 2
                           [] c.k[1][1] = 9 -> AbsI((w[1] * w[1]) \div 16384 + (w[2] * w[2]) \div 16384 - 16384) <= 10
                           [] OTHER -> AbsI(sq - 16384) <= 40 + 4 * Len(ev.nv), "normalize:size")
=============================================================================
