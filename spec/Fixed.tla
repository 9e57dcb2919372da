-------------------------------- MODULE Fixed --------------------------------
(* Fixed-point numbers with f fraction bits.  Real numbers are integers of    *)
(* units 2^-60 (the digits below are cut off, which changes no comparison     *)
(* used here because all thresholds are whole units).                         *)
EXTENDS Big
Step(f) == Pow2B(60 - f)
\* q is x times 2^f truncated toward zero
Converted(x, f, q) == LET S == Step(f) IN LET p == MulB(q, S)  r == SubB(x, p) IN LtB(AbsB(r), S) /\ (r.m = <<>> \/ q.m = <<>> \/ r.neg = x.neg) /\ (q.m = <<>> \/ q.neg = x.neg)
\* converting back is within one step
BackWithin(x, f, y) == LeB(AbsB(SubB(x, y)), AddB(Step(f), FromInt(1)))
\* q is a * 2^16 / b rounded to the nearest step (b # 0)
TwoTo16 == Pow2B(16)
Two31 == Pow2B(31)
DivRepresentable(a, b) == LET A == MulB(FromInt(2), MulB(AbsB(a), TwoTo16)) IN LtB(A, MulB(SubB(MulB(FromInt(2), Two31), FromInt(1)), AbsB(b)))
DivNearest(a, b, q) == LeB(MulB(FromInt(2), AbsB(SubB(MulB(a, TwoTo16), MulB(q, b)))), AbsB(b))
\* the product of two 16.16 numbers: within one step and the parts of both factors below 2^-8 of the true one;
\* exact when neither has such a part (a8, b8: the factors over 2^8, rounded down)
TwoTo8 == Pow2B(8)
ProductOk(a, b, q) == LeB(AbsB(SubB(MulB(q, TwoTo16), MulB(a, b))), AddB(MulB(AddB(AbsB(a), AbsB(b)), TwoTo8), TwoTo16))
ProductExact(a, b, q) == EqB(MulB(q, TwoTo16), MulB(a, b))
=============================================================================
