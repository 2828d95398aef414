------------------------------ MODULE MC_LinAlg ------------------------------
(* Rank modulo primes agrees with the determinant/minor definition on all small integer matrices, and kernel certificates
   have complementary dimension. *)
EXTENDS LinAlg
CONSTANTS D, Ents
VARIABLES M
Rows == [1 .. D -> Ents]
Init == M \in [1 .. 2 -> Rows]
Next == FALSE /\ UNCHANGED M
GDet2(a, b, c, d) == GSub(GMul(a, d), GMul(b, c))
MinorRank == IF \E i, j \in 1 .. D : i < j /\ GDet2(M[1][i], M[1][j], M[2][i], M[2][j]) # G0 THEN 2
             ELSE IF \E r \in 1 .. 2, i \in 1 .. D : M[r][i] # G0 THEN 1 ELSE 0
RankRight == Rank(M) = MinorRank /\ Rank(Transpose(M, D)) = MinorRank
Certificates == \* the cross products of two rows annihilate both
    D = 3 => LET k == <<GDet2(M[1][2], M[1][3], M[2][2], M[2][3]), GNeg(GDet2(M[1][1], M[1][3], M[2][1], M[2][3])), GDet2(M[1][1], M[1][2], M[2][1], M[2][2])>>
             IN MinorRank = 2 => KernelOf(<<k>>, <<M[1], M[2]>>, 3)
SmallEnts == {<<0, 0>>, <<1, 0>>, <<-2, 0>>, <<0, 1>>, <<1, 1>>}
=============================================================================
