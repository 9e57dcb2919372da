------------------------------- MODULE Fixed_MC -------------------------------
(* The division algorithm (add half of the divisor, C division truncating     *)
(* toward zero) rounds to nearest for every pair of a small word size.        *)
EXTENDS Fixed
CONSTANTS W, F
VARIABLES a, b
Pow(n) == 2^n
R == (0..(2 * Pow(W - 1) - 1))
Init == \E x, y \in R : a = x - Pow(W - 1) /\ b = y - Pow(W - 1) /\ b # 0
Next == UNCHANGED <<a, b>>
TruncDiv(n, d) == LET m == (IF n < 0 THEN -n ELSE n) \div (IF d < 0 THEN -d ELSE d) IN IF (n < 0) = (d < 0) THEN m ELSE -m
Half(d) == TruncDiv(d, 2)
Div == LET t == a * Pow(F) IN
       LET t2 == IF (t >= 0 /\ b >= 0) \/ (t < 0 /\ b < 0) THEN t + Half(b) ELSE t - Half(b) IN TruncDiv(t2, b)
AbsF(x) == IF x < 0 THEN -x ELSE x
Nearest == 2 * AbsF(a * Pow(F) - Div * b) <= AbsF(b)
\* truncation toward zero of all reals with 4 digits below the step, both signs
Trunc == LET q == TruncDiv(a, 16) IN AbsF(a - 16 * q) < 16 /\ (a - 16 * q = 0 \/ (a - 16 * q > 0) = (a > 0))
Agree == Converted(MulB(FromInt(a), Pow2B(40)), 16, FromInt(TruncDiv(a, 16)))
OnlyOne == \A d \in {-1, 1} : ~Converted(MulB(FromInt(a), Pow2B(40)), 16, FromInt(TruncDiv(a, 16) + d))
\* dropping the lower half of the fraction of both factors (here: one of two bits)
Product == LET q == (a \div 2) * (b \div 2) IN AbsF(4 * q - a * b) <= 2 * (AbsF(a) + AbsF(b)) + 4 /\ (a % 2 = 0 /\ b % 2 = 0 => 4 * q = a * b)
=============================================================================
