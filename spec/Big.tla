-------------------------------- MODULE Big --------------------------------
(* Integers of any size: [neg |-> BOOLEAN, m |-> limbs], base 10^4, least    *)
(* significant limb first, no leading zero limbs, zero is never negative.    *)
(* (TLC's own integers have 32 bits.)  Big_MC compares every operation with  *)
(* TLC's integers on all pairs of a range.                                   *)
EXTENDS Integers, Sequences
BB == 10000
Zero0 == [neg |-> FALSE, m |-> <<>>]
RECURSIVE TrimB(_)
TrimB(m) == IF m = <<>> THEN m ELSE IF m[Len(m)] = 0 THEN TrimB(SubSeq(m, 1, Len(m) - 1)) ELSE m
MkB(neg, m) == LET t == TrimB(m) IN [neg |-> neg /\ t # <<>>, m |-> t]
LimbB(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MaxB(a, b) == IF a > b THEN a ELSE b
\* limbs of a non-negative integer
RECURSIVE NatB(_)
NatB(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o NatB(n \div BB)
FromInt(n) == IF n >= 0 THEN MkB(FALSE, NatB(n)) ELSE MkB(TRUE, NatB(-n))
\* magnitudes
RECURSIVE CmpM(_, _, _)
CmpM(a, b, i) == IF i = 0 THEN 0 ELSE IF LimbB(a, i) < LimbB(b, i) THEN -1 ELSE IF LimbB(a, i) > LimbB(b, i) THEN 1 ELSE CmpM(a, b, i - 1)
CmpMag(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpM(a, b, Len(a))
RECURSIVE AddM(_, _, _, _)
AddM(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET s == LimbB(a, i) + LimbB(b, i) + c IN <<s % BB>> \o AddM(a, b, i + 1, s \div BB)
RECURSIVE SubM(_, _, _, _)      \* a >= b
SubM(a, b, i, c) == IF i > Len(a) THEN <<>>
                    ELSE LET s == LimbB(a, i) - LimbB(b, i) - c IN <<s % BB>> \o SubM(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
RECURSIVE ScaleM(_, _, _, _)    \* magnitude times one limb
ScaleM(a, k, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE NatB(c)) ELSE LET s == a[i] * k + c IN <<s % BB>> \o ScaleM(a, k, i + 1, s \div BB)
RECURSIVE MulM(_, _)
MulM(a, b) == IF b = <<>> THEN <<>> ELSE AddM(ScaleM(a, b[1], 1, 0), <<0>> \o MulM(a, Tail(b)), 1, 0)
\* signed
NegB(a) == MkB(~a.neg, a.m)
AbsB(a) == [neg |-> FALSE, m |-> a.m]
AddB(a, b) == IF a.neg = b.neg THEN MkB(a.neg, AddM(a.m, b.m, 1, 0))
              ELSE LET c == CmpMag(a.m, b.m) IN
                   IF c = 0 THEN Zero0 ELSE IF c > 0 THEN MkB(a.neg, SubM(a.m, b.m, 1, 0)) ELSE MkB(b.neg, SubM(b.m, a.m, 1, 0))
SubB(a, b) == AddB(a, NegB(b))
MulB(a, b) == IF a.m = <<>> \/ b.m = <<>> THEN Zero0 ELSE MkB(a.neg # b.neg, MulM(a.m, b.m))
LtB(a, b) == LET d == SubB(a, b) IN d.neg
LeB(a, b) == ~LtB(b, a)
EqB(a, b) == a.neg = b.neg /\ a.m = b.m
\* |a - b| <= t
NearB(a, b, t) == LeB(AbsB(SubB(a, b)), t)
RECURSIVE SumB(_)
SumB(s) == IF s = <<>> THEN Zero0 ELSE AddB(Head(s), SumB(Tail(s)))
RECURSIVE Pow2B(_)
Pow2B(k) == IF k = 0 THEN FromInt(1) ELSE IF k <= 13 THEN FromInt(2^k) ELSE MulB(FromInt(8192), Pow2B(k - 13))
\* q is a / d rounded toward zero (d > 0)
IsTrunc(q, a, d) == LET p == MulB(q, d)  r == SubB(a, p) IN
    LtB(AbsB(r), AbsB(d)) /\ (r.m = <<>> \/ r.neg = a.neg)
=============================================================================
