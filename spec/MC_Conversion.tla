--------------------------- MODULE MC_Conversion ---------------------------
(* The denotation is a faithful representation: Jordan-Wigner images multiply like Pauli strings and act on configurations
   like them; fermion words obey the canonical anticommutation relations; the cluster strings of each type are a basis of
   the traceless operators. The state walks over pairs of strings. *)
EXTENDS Bases, LinAlg
CONSTANTS N
VARIABLES s, t
L == 0 .. (N - 1)
PStr == ClusterStrings("P", L, 1 .. N) \cup {IdStr("P")}
MStr == ClusterStrings("M", L, 1 .. N) \cup {IdStr("M")}
FStr == ClusterStrings("F", L, 1 .. N)
Single == {Str("F", 0, <<o>>, <<j>>) : o \in {"C", "CDag"}, j \in L}
Init == \/ s \in PStr /\ t \in PStr
        \/ s \in Single /\ t \in Single
        \/ s \in FStr /\ t = s
Next == FALSE /\ UNCHANGED <<s, t>>
LMul(f, g) == FoldSet(LAMBDA v, acc : LAdd(acc, [w \in {MonMul([k |-> 0, w |-> u], [k |-> 0, w |-> v]).w : u \in DOMAIN f} |->
                  LET u == MonMul([k |-> 0, w |-> w], [k |-> 0, w |-> v]).w
                  IN GIPow(MonMul([k |-> 0, w |-> u], [k |-> 0, w |-> v]).k, GMul(f[u], g[v]))]), LZero, DOMAIN g)
Homomorphism == s.t = "P" =>
    LET a == DenPauli(s) b == DenPauli(t) m == MulPauli(s, t) c == DenPauli(m.s) p == MonMul(a, b) IN
    p.w = c.w /\ (p.k - c.k - m.k) % 4 = 0
Acts == s.t = "P" => \A bits \in [L -> {0, 1}] :
    LET d == DenPauli(s) x == WordAct(d.w, bits) y == PauliAct(s, bits) IN x.b = y.b /\ (x.k + d.k - y.k) % 4 = 0
CAR == s \in Single =>   \* FermWord carries a factor 2 per operator
    LET f == FermWord(s) g == FermWord(t) a == LAdd(LMul(f, g), LMul(g, f))
    IN a = IF s.l = t.l /\ s.o # t.o THEN ({} :> <<4, 0>>) ELSE LZero
HermitianF == s.t = "F" /\ s \in FStr => LHc(DenFerm(s)) = DenFerm(s) /\ DenFerm(s) # LZero
Words == {w \in SUBSET (0 .. (2 * N - 1)) : w # {}}
WSeq == SetToSeq(Words)
ASSUME Cardinality(FStr) = Cardinality(Words) /\ Cardinality(PStr) = Cardinality(MStr) /\ Cardinality(MStr) = 1 + Cardinality(Words)
ASSUME LET fs == SetToSeq(FStr) IN
       Rank([i \in 1 .. Len(fs) |-> [j \in 1 .. Len(WSeq) |-> LGet(DenFerm(fs[i]), WSeq[j])]]) = Len(WSeq)
ASSUME {DenMaj(m).w : m \in MStr} = Words \cup {{}} /\ {DenPauli(p).w : p \in PStr} = Words \cup {{}}
=============================================================================
