----------------------------- MODULE MC_Session -----------------------------
(* Exhaustive check of the session machine on a small heap, and generation of its behaviours (Gen configuration). *)
EXTENDS Session, TLC, Json, IOUtils
CONSTANTS K, NB, NO, MaxLen, MaxC, Scalars, Depth, Mode    \* Mode: "check" or "gen"; "genB"/"genO" restrict the commands
VARIABLES st, hist

SmallScalars == {<<-1, 0>>}
ImagScalars == {<<0, 1>>}
GenScalars == {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<2, 0>>, <<0, 1>>, <<1, -1>>, <<3, 2>>}
Ty == [x \in 1 .. K |-> IF Mode = "check" \/ x < K THEN 1 ELSE 2]    \* in generation the last atom has another type
Lists(n) == UNION {[1 .. m -> 1 .. K] : m \in 1 .. n}
Same(q) == \A i, j \in 1 .. Len(q) : Ty[q[i]] = Ty[q[j]]
C(nm, r, a, b, s, l, k) == [c |-> nm, r |-> r, a |-> a, b |-> b, s |-> s, l |-> l, k |-> k]
BR == 1 .. NB
OR == 1 .. NO
AtomS == 1 .. K
BCmds ==
    {C("bnew", r, 1, 1, 1, l, <<>>) : r \in BR, l \in Lists(MaxLen)}
    \cup {C("btwo", p[1], p[2], 1, 1, l, <<>>) : p \in {q \in BR \X BR : q[1] # q[2]}, l \in Lists(MaxLen)}
    \cup {C("bempty", r, 1, 1, 1, <<>>, <<>>) : r \in BR}
    \cup {C(nm, r, a, 1, 1, <<>>, <<>>) : nm \in {"bcopy", "bgrowb"}, r \in BR, a \in BR}
    \cup {C("bgrow", r, 1, 1, s, <<>>, <<>>) : r \in BR, s \in AtomS}
    \cup {C("bsum", r, a, b, 1, <<>>, <<>>) : r \in BR, a \in BR, b \in BR}
    \cup {C("bsums", r, a, 1, s, <<>>, <<>>) : r \in BR, a \in BR, s \in AtomS}
    \cup {C(nm, r, r, 1, 1, <<>>, <<>>) : nm \in {"bbad", "bgrowbad"}, r \in BR}
    \cup {C("bindex", 1, a, 1, s, <<>>, <<>>) : a \in BR, s \in AtomS}
    \cup {C("bget", 1, a, 1, 1, <<>>, <<<<i, 0>>>>) : a \in BR, i \in 0 .. 2}
OCmds ==
    {C("onew", r, 1, 1, 1, l, [i \in 1 .. Len(l) |-> sc[((i - 1) % 2) + 1]]) :
        r \in OR, l \in {x \in Lists(MaxLen) : Same(x)}, sc \in Scalars \X Scalars}
    \cup {C("ozero", r, 1, 1, s, <<>>, <<>>) : r \in OR, s \in AtomS}
    \cup {C(nm, r, r, 1, 1, <<>>, <<>>) : nm \in {"onotype", "obad", "ovecbad"}, r \in OR}
    \cup {C(nm, r, a, 1, 1, <<>>, <<>>) : nm \in {"ocopy", "oneg", "oclean"}, r \in OR, a \in OR}
    \cup {C(nm, r, a, b, 1, <<>>, <<>>) : nm \in {"oadd", "osub"}, r \in OR, a \in OR, b \in OR}
    \cup {C(nm, r, 1, b, 1, <<>>, <<>>) : nm \in {"oiadd", "oisub"}, r \in OR, b \in OR}
    \cup {C(nm, r, a, 1, 1, <<>>, <<k>>) : nm \in {"omul", "ormul", "onpmul"}, r \in OR, a \in OR, k \in Scalars}
    \cup {C("onorm2", 1, a, 1, 1, <<>>, <<>>) : a \in OR}
    \cup {C("ovec", 1, a, b, 1, <<>>, <<>>) : a \in OR, b \in BR}
    \cup {C("bfromop", r, a, 1, 1, <<>>, <<>>) : r \in BR, a \in OR}
Cmds == IF NO = 0 \/ Mode = "genB" THEN BCmds ELSE BCmds \cup OCmds
CmdNames == {c.c : c \in Cmds}
CmdsOf == [nm \in CmdNames |-> {c \in Cmds : c.c = nm}]

Start == [ty |-> Ty, B |-> [r \in BR |-> <<>>], O |-> [r \in OR |-> [t |-> 1, q |-> <<>>]]]
Init == st = Start /\ hist = <<>>
Bounded(s) == \A r \in OR : \A i \in 1 .. Len(s.O[r].q) :
                  AbsI(s.O[r].q[i][2][1]) <= MaxC /\ AbsI(s.O[r].q[i][2][2]) <= MaxC
Next ==
    IF Mode = "check"
    THEN \E c \in Cmds : LET x == Step(st, c) IN Bounded(x.st) /\ st' = x.st /\ UNCHANGED hist
    ELSE Len(hist) < Depth /\ \E nm \in {RandomElement(CmdNames)} : \E c \in {RandomElement(CmdsOf[nm])} :
            LET x == Step(st, c) IN Bounded(x.st) /\ st' = x.st /\ hist' = Append(hist, c)

(* invariants *)
NoDuplicates == (\A r \in BR : Distinct(st.B[r])) /\ (\A r \in OR : Distinct(OStr(st.O[r])))
LookupAgrees == \A r \in BR : \A x \in AtomS :
    LET i == IndexIn(st.B[r], x) IN (i # 0) = (x \in Atoms(st.B[r])) /\ (i # 0 => st.B[r][i] = x)
(* every command changes only its target registers, appends in place, and acts linearly on values *)
Frame == \A c \in Cmds : LET x == Step(st, c) y == x.st IN
              /\ \A r \in BR : (y.B[r] # st.B[r]) => (r = c.r \/ (c.c = "btwo" /\ r = c.a))
              /\ \A r \in OR : (y.O[r] # st.O[r]) => (r = c.r /\ c.c \notin {"bfromop", "bcopy", "bsum", "bgrow", "bgrowb"})
              /\ ~x.ok => y = st
              /\ c.c \in {"bgrow", "bgrowb"} => SubSeq(y.B[c.r], 1, Len(st.B[c.r])) = st.B[c.r]
              /\ c.c \in {"oadd", "oiadd"} =>
                   LET a == IF c.c = "oadd" THEN c.a ELSE c.r IN
                   x.ok => \A z \in AtomS : OCoeff(y.O[c.r], z) = GAdd(OCoeff(st.O[a], z), OCoeff(st.O[c.b], z))
              /\ c.c = "oclean" => OValue(y.O[c.r], K) = OValue(st.O[c.a], K)
Dump == (Mode # "check" /\ Len(hist) = Depth) =>
            JsonSerialize(IOEnv.GEN_DIR \o "/" \o ToString(RandomElement(1 .. 1000000000)) \o ".json", hist)
=============================================================================
