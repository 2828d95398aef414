---------------------------- MODULE T_Transform ----------------------------
(* Acceptance of recorded transformation programs (C12). The session state holds the lattice (if any) and the
   transformations built so far, as words: st.T[i]. *)
EXTENDS Transform, Crystal, T_Base

TWords(s) == IF "T" \in DOMAIN s THEN s.T ELSE <<>>
Bijective(p) == IsPerm0(p)
TWord(s, ev) == \* <<valid, word>>
    CASE ev.kind = "perm" -> <<TRUE, <<[k |-> "perm", p |-> ev.p]>>>>
      [] ev.kind = "sg" -> LET p == SGPerm(s.lat, s.orbs, ev.M, ev.t) IN <<Bijective(p), <<[k |-> "perm", p |-> p]>>>>
      [] ev.kind = "flip" -> LET p == FlipPerm(s.lat, s.orbs, ev.up, ev.dn) IN <<Bijective(p), <<[k |-> "perm", p |-> p]>>>>
      [] ev.kind = "par" -> <<TRUE, <<[k |-> "par", dn |-> DownSet(s.orbs, ev.dn)]>>>>
      [] ev.kind = "trs" -> LET p == FlipPerm(s.lat, s.orbs, ev.up, ev.dn) IN
                            <<Bijective(p), <<[k |-> "trs", p |-> p, dn |-> DownSet(s.orbs, ev.dn)]>>>>
      [] ev.kind = "tr" -> <<TRUE, <<[k |-> "tr"]>>>>
      [] ev.kind = "ph" -> <<TRUE, <<[k |-> "ph"]>>>>
      [] ev.kind = "mul" -> <<TRUE, TWords(s)[ev.a] \o TWords(s)[ev.b]>>
      [] ev.kind = "pow" -> <<ev.n > 0, FoldLeft(LAMBDA w, i : w \o TWords(s)[ev.a], <<>>, [i \in 1 .. MaxI(ev.n, 0) |-> i])>>
Fail_tmk(s, ev) == LET w == TWord(s, ev) IN
    If(~w[1] \/ ev.exc = "", "exception:" \o ev.kind) \cup If(w[1] \/ ev.exc # "", "accepted:" \o ev.kind)
After_tmk(s, ev) ==
    IF ev.exc # "" THEN s
    ELSE LET T == Append(TWords(s), TWord(s, ev)[2]) IN
         IF "lat" \in DOMAIN s THEN [lat |-> s.lat, orbs |-> s.orbs, T |-> T] ELSE [T |-> T]

Fail_tapply(s, ev) ==
    LET w == s.T[ev.i] IN
    IF ev.A.s # <<>> /\ ~WordSupported(w, ev.A.t) THEN If(ev.exc # "", "accepted:type") ELSE
    IF ev.exc # "" THEN {"exception"} ELSE
    If(ev.r.x = 1 /\ EqScaled(ActFn(w, OpFn(ev.A)), ev.A.e, OpFn(ev.r), ev.r.e), "value:" \o (IF Len(w) = 1 THEN w[1].k ELSE "composite"))
    \cup If(NoDup(ev.r.s), "duplicate") \cup If(ev.r.t = ev.A.t, "type")
=============================================================================
