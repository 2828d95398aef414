----------------------------- MODULE Transform -----------------------------
(*
 Symmetry transformations as maps of strings: each is fixed by the images of the elementary factors, by being
 multiplicative, and by being linear or antilinear (time reversal).
 An elementary transformation is a record with k in
   "perm"  p: permutation (p[j+1] is the image of label j)
   "tr"    antilinear; Pauli factors change sign; b -> -b
   "ph"    b -> -b  (Majorana only)
   "par"   dn: labels; a, b -> -a, -b on dn  (Majorana only)
   "trs"   p, dn: antilinear; a -> +-a_p, b -> -+b_p, with the upper sign off dn  (Majorana only)
 A transformation is a sequence of these; the rightmost acts first.
*)
EXTENDS QAlgebra

Anti(L) == L.k \in {"tr", "trs"}
(* image of gamma_g: <<exponent of i, index>> *)
GammaImage(L, g) ==
    LET j == g \div 2 b == g % 2 IN
    CASE L.k = "perm" -> <<0, 2 * L.p[j + 1] + b>>
      [] L.k = "tr" -> <<2 * b, g>>
      [] L.k = "ph" -> <<2 * b, g>>
      [] L.k = "par" -> <<IF j \in L.dn THEN 2 ELSE 0, g>>
      [] L.k = "trs" -> <<IF (j \in L.dn) = (b = 1) THEN 0 ELSE 2, 2 * L.p[j + 1] + b>>
ActMaj(L, s) == \* [k, s]
    LET m == DenMaj(s)
        w == FoldLeft(LAMBDA acc, g : LET i == GammaImage(L, g) n == MonTimesGamma(acc, i[2]) IN [n EXCEPT !.k = (@ + i[1]) % 4],
                      [k |-> IF Anti(L) THEN (4 - m.k) % 4 ELSE m.k, w |-> {}], SortedSeq(m.w))
        r == MajStr(w.w)
    IN [k |-> (w.k - DenMaj(r).k) % 4, s |-> r]
ActPauli(L, s) ==
    CASE L.k = "perm" -> [k |-> 0, s |-> PauliStr({L.p[j + 1] : j \in PX(s)}, {L.p[j + 1] : j \in PZ(s)})]
      [] OTHER -> [k |-> (2 * Len(s.l)) % 4, s |-> s]
Supported(L, t) == t = "M" \/ (t = "P" /\ L.k \in {"perm", "tr"})
WordSupported(w, t) == \A i \in 1 .. Len(w) : Supported(w[i], t)
Act1(L, s) == IF s.t = "P" THEN ActPauli(L, s) ELSE ActMaj(L, s)
ActStr(w, s) == \* coefficients met on the way are signs, so antilinearity does not matter between the factors
    FoldLeft(LAMBDA r, L : LET a == Act1(L, r.s) IN [k |-> (r.k + a.k) % 4, s |-> a.s], [k |-> 0, s |-> s], Reverse(w))
(* on combinations of strings with real coefficients (functions from strings to Gaussian integers) *)
ActFn(w, f) == FoldSet(LAMBDA s, acc : LET a == ActStr(w, s) IN LAdd1(acc, a.s, GIPow(a.k, f[s])), LZero, DOMAIN f)
=============================================================================
