------------------------------- MODULE Gauss -------------------------------
(* Gaussian integers <<re, im>>, powers of i, and scaling by powers of two. *)
EXTENDS Integers, Sequences

G0 == <<0, 0>>
G1 == <<1, 0>>
GI == <<0, 1>>
GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
GNeg(a) == <<-a[1], -a[2]>>
GConj(a) == <<a[1], -a[2]>>
GScale(n, a) == <<n * a[1], n * a[2]>>
(* i^k * a, for any integer k *)
GIPow(k, a) == LET m == k % 4 IN
    CASE m = 0 -> a
      [] m = 1 -> <<-a[2], a[1]>>
      [] m = 2 -> <<-a[1], -a[2]>>
      [] OTHER -> <<a[2], -a[1]>>

RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
AbsI(n) == IF n < 0 THEN -n ELSE n
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
GNear(a, b, tol) == AbsI(a[1] - b[1]) <= tol /\ AbsI(a[2] - b[2]) <= tol
=============================================================================
