----------------------------- MODULE MC_Strings -----------------------------
(* Token sequences are built one token at a time; every name that parses is printed and parsed back to the same string,
   and spellings with and without prefactor agree; no description parses in two ways. *)
EXTENDS Strings
CONSTANTS Alphabet, MaxTok
VARIABLES tok
Num(x) == CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] OTHER -> -1
Nums(q) == [i \in 1 .. Len(q) |-> Num(q[i])]
Init == tok = <<>>
Next == Len(tok) < MaxTok /\ \E x \in Alphabet : tok' = Append(tok, x)
Asks == {"", "P", "M", "F"}
NT(s) == NameTokens(s, ToString)
RoundTrip == \A t \in Asks : \A r \in Parse(tok, Nums(tok), t) :
    r.ok => LET n == NT(r.s) IN Parse(n, Nums(n), r.s.t) = {r} /\ (r.s.o # <<>> => Parse(n, Nums(n), "") = {r})
Deterministic == \A t \in Asks : Cardinality(Parse(tok, Nums(tok), t)) = 1
Asked == \A t \in Asks \ {""} : \A r \in Parse(tok, Nums(tok), t) : r.ok => r.s.t = t
HermitianMajorana == \A r \in Parse(tok, Nums(tok), "M") :
    (r.ok /\ IsIncreasing(r.s.l)) =>
        LET d == DenMaj(r.s) IN GConj(GIPow(d.k, G1)) = GIPow(d.k + 2 * HcSign(d.w), G1)
Spellings == (tok # <<>> /\ tok[1] \in AllOps) =>
    \A t \in Asks : \A pf \in {"1", "1.0"} : Parse(<<pf>> \o tok, <<-1>> \o Nums(tok), t) = Parse(tok, Nums(tok), t)
=============================================================================
