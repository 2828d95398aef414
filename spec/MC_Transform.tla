---------------------------- MODULE MC_Transform ----------------------------
(* Every elementary transformation is multiplicative on all pairs of strings and preserves the prefactors of Hermitian
   strings up to a sign; time reversal and particle-hole square to one, spinful time reversal to the fermion parity of the
   spinful orbitals; permutations represent the symmetric group; the images agree with the documented ones on d_j. *)
EXTENDS Transform, Bases
CONSTANT N
VARIABLES s, t
L == 0 .. (N - 1)
Strs(ty) == ClusterStrings(ty, L, 1 .. N) \cup {IdStr(ty)}
Perms == {p \in [1 .. N -> L] : {p[i] : i \in 1 .. N} = L}
Inv == {p \in Perms : \A j \in 1 .. N : p[p[j] + 1] = j - 1}
Dn(p) == {{j \in L : j > p[j + 1]}}
Letters == {[k |-> "perm", p |-> p] : p \in Perms} \cup {[k |-> "tr"], [k |-> "ph"]}
           \cup {[k |-> "par", dn |-> d] : d \in SUBSET L}
           \cup UNION {{[k |-> "trs", p |-> p, dn |-> d] : d \in Dn(p)} : p \in Inv}
Init == \E ty \in {"P", "M"} : s \in Strs(ty) /\ t \in Strs(ty)
Next == FALSE /\ UNCHANGED <<s, t>>
Multiplicative == \A X \in Letters : Supported(X, s.t) =>
    LET m == Mul(s, t) a == Act1(X, s) b == Act1(X, t) c == Act1(X, m.s) n == Mul(a.s, b.s) IN
    /\ n.s = c.s
    /\ (a.k + b.k + n.k - (c.k + (IF Anti(X) THEN 4 - m.k ELSE m.k))) % 4 = 0
    /\ a.k \in {0, 2} /\ Canonical(a.s)
Involutions == s.t = "M" =>
    /\ ActStr(<<[k |-> "tr"], [k |-> "tr"]>>, s) = [k |-> 0, s |-> s]
    /\ ActStr(<<[k |-> "ph"], [k |-> "ph"]>>, s) = [k |-> 0, s |-> s]
    /\ \A p \in Inv : \A d \in Dn(p) :
          LET X == [k |-> "trs", p |-> p, dn |-> d]
              spinful == {j \in L : p[j + 1] # j}
              sg == 2 * Cardinality({g \in DenMaj(s).w : g \div 2 \in spinful})
          IN ActStr(<<X, X>>, s) = [k |-> sg % 4, s |-> s]
          /\ ActStr(<<X>>, s) = ActStr(<<[k |-> "perm", p |-> p], [k |-> "par", dn |-> d], [k |-> "tr"]>>, s)
Rep == \A p, q \in Perms : ActStr(<<[k |-> "perm", p |-> p], [k |-> "perm", p |-> q]>>, s)
          = ActStr(<<[k |-> "perm", p |-> [j \in 1 .. N |-> p[q[j] + 1]]]>>, s)
DFactor == \A j \in L : LET D == Str("M", 0, <<"D">>, <<j>>) IN
    ActStr(<<[k |-> "tr"]>>, D) = [k |-> 0, s |-> D] /\ ActStr(<<[k |-> "ph"]>>, D) = [k |-> 2, s |-> D]
=============================================================================
