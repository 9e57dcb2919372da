------------------------------- MODULE Bayes -------------------------------
(* Gaussian naive Bayes in 16.16 fixed point.                                *)
(* Parameters and inputs are in units of 1/65536 ("q").  The cost of a class *)
(* is the negated log2-likelihood without the constant all classes share:    *)
(*     sum over features of  0.7213475 z^2 + log2(std),  z = (x - mean)/std  *)
(* in units of 1/U, U = 65536 * 10^7, as a Big; with it goes a bound on what *)
(* 16.16 arithmetic can lose.                                                *)
EXTENDS Big, TLC
ZSAT == 1048576      \* 4096 deviations, in units of 1/256: beyond, only a lower bound of the cost is used
AbsI(x) == IF x < 0 THEN -x ELSE x
\* floor(1024 * log2(s)) for s >= 1, by repeated squaring of a 14 bit mantissa
RECURSIVE Expo(_)
Expo(s) == IF s < 2 THEN 0 ELSE 1 + Expo(s \div 2)
RECURSIVE Bits(_, _, _)
Bits(m, n, acc) == IF n = 0 THEN acc ELSE
    LET q == (m * m) \div 16384 IN IF q >= 32768 THEN Bits(q \div 2, n - 1, 2 * acc + 1) ELSE Bits(q, n - 1, 2 * acc)
Log2K(s) == LET k == Expo(s)
                m == IF k <= 14 THEN s * 2^(14 - k) ELSE s \div 2^(k - 14)
            IN k * 1024 + Bits(m, 10, 0)
\* |x - mean| / std in units of 1/256, at most ZSAT
Frac(r, s, u) == IF s < 2097152 THEN (r * u) \div s ELSE ((r \div 2048) * u) \div (s \div 2048)
RatioI(d, s, u) == IF d \div s > 1048576 \div u THEN ZSAT ELSE
    LET v == (d \div s) * u + Frac(d % s, s, u) IN IF v > ZSAT THEN ZSAT ELSE v
\* (mod and div on non-negative numbers only)
Ratio(x, m, s) == LET d4 == AbsI(x \div 4 - m \div 4) IN
    IF d4 < 268435456 THEN RatioI(AbsI(x - m), s, 256) ELSE RatioI(d4, s, 1024)
CA == FromInt(7213475)
LogUnit == FromInt(640000000)            \* 1/1024 in units of 1/U
\* <<cost, error bound>> of one feature
Term(x, m, s) ==
    LET z == Ratio(x, m, s)  zb == FromInt(z)  zz == MulB(zb, zb)
        dz == ((768 + z) * 256) \div s + 1            \* units of 1/65536: input, mean, deviation rounded
        e == AddB(MulB(MulB(zb, FromInt(14500000)), FromInt(dz \div 256 + 5)), AddB(MulB(zz, FromInt(15000)), MulB(FromInt(6560), FromInt(1000000))))
        es == MulB(FromInt(65536), FromInt(14500000 \div s + 1))    \* log2(std) with the deviation rounded
    IN [cost |-> AddB(MulB(zz, CA), MulB(LogUnit, FromInt(Log2K(s) - 16384))), err |-> AddB(e, es), sat |-> z >= ZSAT]
\* features lo..hi, halved so that the recursion stays shallow
RECURSIVE CostR(_, _, _, _, _)
CostR(x, m, s, lo, hi) == IF lo = hi THEN Term(x[lo], m[lo], s[lo])
    ELSE LET mid == (lo + hi) \div 2  t == CostR(x, m, s, lo, mid)  r == CostR(x, m, s, mid + 1, hi)
         IN [cost |-> AddB(t.cost, r.cost), err |-> AddB(t.err, r.err), sat |-> t.sat \/ r.sat]
\* the prior of a class, in units of 2^-24, costs -log2 of it
Prior(p) == [cost |-> MulB(LogUnit, FromInt(24576 - Log2K(p))), err |-> MulB(LogUnit, FromInt(4))]
Costs(x, M, S, P) == TLCEval([c \in 1..Len(M) |-> LET t == CostR(x, M[c], S[c], 1, Len(x))  p == Prior(P[c])
                                                  IN [cost |-> AddB(t.cost, p.cost), err |-> AddB(t.err, p.err), sat |-> t.sat]])
\* class k (from 0) may be reported for costs cs
Allowed(cs, k) == /\ k \in 0..(Len(cs) - 1)
                  /\ \A c \in 1..Len(cs) : cs[c].sat \/ LeB(SubB(cs[k + 1].cost, cs[k + 1].err), AddB(cs[c].cost, cs[c].err))
LowestOfEqual(M, S, P, k) == \A c \in 1..k : ~(M[c] = M[k + 1] /\ S[c] = S[k + 1] /\ P[c] = P[k + 1])
=============================================================================
