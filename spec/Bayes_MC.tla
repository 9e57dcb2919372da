------------------------------ MODULE Bayes_MC ------------------------------
(* The 16.16 algorithm of the library, step by step, against the cost with   *)
(* its error bound: every pair of deviations, over distances up to STDS      *)
(* deviations.                                                               *)
EXTENDS Bayes
CONSTANTS DEVS, STEPS, STDS
VARIABLES s, d
Div(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
\* (|d| * 65536 + s/2) / s without leaving 32 bits
DivQ(a, b) == LET sh == 32768 IN (a \div b) * 65536 + (IF b < 32768 THEN ((a % b) * 65536 + b \div 2) \div b
              ELSE LET r == a % b IN ((r * 16) \div b) * 4096 + (((((r * 16) % b) \div 16) * 4096) \div (b \div 16)))
MulQ(a, b) == (a \div 256) * (b \div 256)        \* arithmetic shift: division rounds down
LogPdf(z) == MulQ(-47274, MulQ(z, z))
Impl == LogPdf(DivQ(d, s))                        \* q units, without constant and log2(std)
Init == s \in DEVS /\ d = 0
Next == d' \in {((i * s) \div STEPS) + j : i \in 0..(STEPS * STDS), j \in {0, 1, 7}} /\ d = 0 /\ s' = s
\* -Impl - cost within the bound (units 1/U: a q unit is 10^7)
T == Term(d, 0, s)
Within == d > 0 /\ d \div s < 181 =>
    NearB(AddB(MulB(FromInt(-Impl), FromInt(10000000)), MulB(LogUnit, FromInt(Log2K(s) - 16384))), T.cost, T.err)
\* the logarithm: doubling adds one, exact at powers of two, monotone
Logs == /\ Log2K(s) <= Log2K(s + 1) /\ AbsI(Log2K(2 * s) - Log2K(s) - 1024) <= 1
        /\ \A k \in 0..30 : Log2K(2^k) = 1024 * k
        /\ AbsI(Log2K(s) + Log2K(3) - Log2K(3 * s)) <= 3
Priors == LET p == Prior(s) IN LeB(Prior(s + 1).cost, p.cost) /\ Prior(8388608).cost = MulB(LogUnit, FromInt(1024)) /\ Prior(16777216).cost = MulB(LogUnit, FromInt(0))
Ratios == d > 0 => LET z == Ratio(d, 0, s) IN z < ZSAT => LET q == z \div 256 IN q <= d \div s + 1 /\ q + 1 >= d \div s
=============================================================================
