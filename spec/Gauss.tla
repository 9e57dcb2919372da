------------------------------- MODULE Gauss -------------------------------
(* Elliptic envelopes and Gaussian mixtures on integer data.                 *)
EXTENDS Net
\* sum of f[lo..hi], halved so that the recursion stays shallow
RECURSIVE SumR(_, _, _)
SumR(f, lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN f[lo] ELSE LET mid == (lo + hi) \div 2 IN SumR(f, lo, mid) + SumR(f, mid + 1, hi)
SumF(f) == SumR(f, 1, Len(f))
Sub(x, m) == [i \in 1..Len(x) |-> x[i] - m[i]]
(* ---- elliptic envelope: precision P, location m, offset ---- *)
Quad(P, d) == SumF([i \in 1..Len(d) |-> d[i] * SumF([j \in 1..Len(d) |-> P[i][j] * d[j]])])
Mahalanobis(P, m, x) == LET d == TLCEval(Sub(x, m)) IN Quad(P, d)
Outlier(dist, offset) == -dist < offset
Label(dist, offset) == IF Outlier(dist, offset) THEN -1 ELSE 1
(* ---- mixtures ---- *)
\* Cholesky factor of the precision of component c, entry (p, f), for each way a source stores it
Chol(type, P, c, p, f) == CASE type = "full" -> P[c][p][f]
                            [] type = "tied" -> P[p][f]
                            [] type = "diag" -> IF p = f THEN P[c][p] ELSE 0
                            [] type = "spherical" -> IF p = f THEN P[c] ELSE 0
Square(y) == y * y
\* squared distance of x to component c
Dist2(type, P, means, c, x) ==
    LET d == TLCEval(Sub(x, means[c]))  n == Len(x) IN
    IF type \in {"diag", "spherical"} THEN SumF([f \in 1..n |-> Square(d[f] * Chol(type, P, c, f, f))])
    ELSE SumF([f \in 1..n |-> Square(SumF([p \in 1..n |-> d[p] * Chol(type, P, c, p, f)]))])
\* natural logarithm of an integer s >= 1 in units of 1/Q
RECURSIVE Expo(_)
Expo(s) == IF s < 2 THEN 0 ELSE 1 + Expo(s \div 2)
RECURSIVE LogBits(_, _, _)
LogBits(m, n, acc) == IF n = 0 THEN acc ELSE LET q == (m * m) \div 16384 IN IF q >= 32768 THEN LogBits(q \div 2, n - 1, 2 * acc + 1) ELSE LogBits(q, n - 1, 2 * acc)
Log2N(s) == LET k == Expo(s) IN k * 4096 + LogBits(IF k <= 14 THEN s * 2^(14 - k) ELSE s \div 2^(k - 14), 12, 0)
LN2 == 45426                    \* ln 2 in units of 1/65536
Ln(s) == (Log2N(s) * (LN2 \div 2)) \div 32768
LNHALF2PI == 3764               \* ln(2 pi) / 2 in units of 1/Q
LogDet(type, P, c, n) == SumF([f \in 1..n |-> Ln(Chol(type, P, c, f, f))])
\* logarithm of the weighted density: off is log-determinant plus log-weight, in units of 1/Q
LogProb(d2, n, off) == off - n * LNHALF2PI - d2 * (Q \div 2)
LogProbs(type, P, means, offs, x) == TLCEval([c \in 1..Len(means) |-> LogProb(Dist2(type, P, means, c, x), Len(x), offs[c])])
Offsets(type, P, means, weights) == LET t == SumF(weights) IN
    [c \in 1..Len(means) |-> LogDet(type, P, c, Len(means[1])) + Ln(weights[c]) - Ln(t)]
LogSumExp(lp) == LET m == MaxOf(lp, Len(lp)) IN m + Ln(SumF([c \in 1..Len(lp) |-> Exp(Clip(m - lp[c], Q))])) - 14 * ((4096 * (LN2 \div 2)) \div 32768)
Responsibilities(lp) == Softmax(lp, Q)
=============================================================================
