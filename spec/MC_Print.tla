------------------------------ MODULE MC_Print ------------------------------
(* A text as a machine writes it: terms of factors on labels, letter by letter. Relabelling is injective on texts (two texts
   that read the same after relabelling were the same), leaves everything but labels alone, and commutes with cutting into
   lines; filtering is idempotent and monotone in the keywords. *)
EXTENDS Print
CONSTANT L
VARIABLES t, u
Lat == [d |-> 1, D |-> 2, g |-> <<<<1>>>>, gs |-> 1, per |-> <<FALSE>>, N |-> <<4>>, atoms |-> <<[f |-> <<0>>, o |-> <<<<>>, <<"U">>>>], [f |-> <<1>>, o |-> <<<<"U">>>>]>>]
Orbs == LET C == [i \in 0 .. 11 |-> <<i \div 3, i % 3>>] IN
        [k \in 1 .. 12 |-> LET c == C[k - 1][1] a == C[k - 1][2] IN
            <<<<2 * c + (IF a = 2 THEN 1 ELSE 0)>>, IF a = 0 THEN <<>> ELSE <<"U">>, <<c>>>>]
Toks == {<<"X">>, <<" ", "1">>, <<" ", "1", "1">>, <<" ", "0">>, <<" ">>, <<"2">>, <<"\n">>}
(* after a label, a digit would change the label: only label tokens end in digits, and they start with a blank *)
EndsInDigit(x) == x # <<>> /\ IsDigit(x[Len(x)])
Init == t = <<>> /\ u = <<>>
Grow(x, k) == x \o k
OKNext(x, k) == ~(k = <<"2">> /\ (x = <<>> \/ x[Len(x)] = " " \/ EndsInDigit(x)))
Next == \E k \in Toks : \/ Len(t) < L /\ OKNext(t, k) /\ t' = Grow(t, k) /\ u' = u
                        \/ Len(u) < L /\ OKNext(u, k) /\ u' = Grow(u, k) /\ t' = t
R(x) == RelabelText(x, Lat, Orbs)
Injective == (R(t) = R(u)) => (t = u)
NoLabels(x) == \A i \in 1 .. Len(x) - 1 : ~(x[i] = " " /\ IsDigit(x[i + 1]))
Identity == NoLabels(t) => R(t) = t
Labels(x) == Cardinality({i \in 1 .. Len(x) - 1 : x[i] = " " /\ IsDigit(x[i + 1])})
EveryLabel == Cardinality({i \in 1 .. Len(R(t)) : R(t)[i] = "{"}) = Labels(t)
NameOK == \A k \in 1 .. 12 : \A j \in 1 .. 12 : k # j => OrbText(Lat, Orbs[k]) # OrbText(Lat, Orbs[j])
DecimalOK == \A n \in 0 .. 120 : ReadNat(Decimal(n), 1, 0) = <<n, Len(Decimal(n)) + 1>>
Kw == {<<>>, <<<<"X">>>>, <<<<"1">>>>, <<<<"X">>, <<" ", "1">>>>, <<<<>>>>}
FilterOK == \A k \in Kw : LET ls == <<t, u>> f == KeepLines(ls, k) IN
    /\ KeepLines(f, k) = f /\ \A i \in 1 .. 2 : (\E j \in 1 .. Len(f) : f[j] = ls[i]) <=> HasKeyword(ls[i], k)
    /\ (k = <<<<>>>> => f = ls) /\ (k = <<>> => f = <<>>)
=============================================================================
