-------------------------------- MODULE Quant --------------------------------
(* Uniform quantisation of features: value times scale, limited to +-max,    *)
(* truncated toward zero.  Products are integers of units 1/U.               *)
EXTENDS Big
TruncI(n, u) == IF n >= 0 THEN n \div u ELSE -((-n) \div u)
ClipI(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* small integers (design model): value v times scale num/den
Quantise(v, num, den, max) == ClipI(TruncI(v * num, den), -max, max)
(* big integers (recorded data): q is an admissible output for the product   *)
(* p +- t (units 1/u) under limits lo..hi                                     *)
\* trunc(x / u) >= q   and   trunc(x / u) <= q
AtLeast(x, u, q) == IF ~q.neg /\ q.m # <<>> THEN LeB(MulB(q, u), x) ELSE LtB(MulB(SubB(q, FromInt(1)), u), x)
AtMost(x, u, q) == IF q.neg THEN LeB(x, MulB(q, u)) ELSE LtB(x, MulB(AddB(q, FromInt(1)), u))
Admissible(p, t, u, q, lo, hi) ==
    LET a == SubB(p, t)  b == AddB(p, t)
        atTop == EqB(q, hi) /\ LeB(MulB(hi, u), b)
        atBottom == EqB(q, lo) /\ LeB(a, MulB(lo, u))
    IN LeB(lo, q) /\ LeB(q, hi) /\ (atTop \/ atBottom \/ (AtLeast(b, u, q) /\ AtMost(a, u, q)))
=============================================================================
