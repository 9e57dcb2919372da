----------------------------- MODULE Mixture_MC -----------------------------
(* (1) Every covariance type is a special case of the full one, and the      *)
(*     factored distance is the quadratic form of the precision matrix.      *)
(* (2) Log-probabilities: the logarithm of the sum, and responsibilities.    *)
EXTENDS Gauss
CONSTANTS CVALS, DVALS, LPS, PART
VARIABLES type, P, d, lp
Max0(v) == IF v < 0 THEN 0 ELSE v
NearN(a, b, t) == AbsN(a - b) <= t
Full == [1..2 -> [1..2 -> CVALS]]
Ps(t) == CASE t = "full" -> {<<M, M2>> : M \in Full, M2 \in {<<<<1, 0>>, <<0, 2>>>>}} [] t = "tied" -> Full [] t = "diag" -> [1..2 -> [1..2 -> CVALS]] [] t = "spherical" -> [1..2 -> CVALS]
Init == IF PART = 1 THEN /\ \E t \in {"full", "tied", "diag", "spherical"} : type = t /\ P \in Ps(t)
                         /\ d \in [1..2 -> DVALS] /\ lp = <<0>>
        ELSE type = "full" /\ P = <<>> /\ d = <<0, 0>> /\ lp \in UNION {[1..k -> LPS] : k \in 1..4}
Next == FALSE /\ UNCHANGED <<type, P, d, lp>>
Means == <<<<0, 0>>, <<1, 0>>>>
AsFull(c) == [p \in 1..2 |-> [f \in 1..2 |-> Chol(type, P, c, p, f)]]
Prec(c) == [a \in 1..2 |-> [b \in 1..2 |-> SumF([f \in 1..2 |-> AsFull(c)[a][f] * AsFull(c)[b][f]])]]
Forms == PART = 1 => \A c \in 1..2 : /\ Dist2(type, P, Means, c, d) = Quad(Prec(c), Sub(d, Means[c]))
                                     /\ Dist2(type, P, Means, c, d) = Dist2("full", [k \in 1..2 |-> AsFull(k)], Means, c, d)
                                     /\ Dist2(type, P, Means, c, d) >= 0
K == Len(lp)
Logs == PART = 2 => LET s == LogSumExp(lp) m == MaxOf(lp, K) IN
    /\ s >= m - 8 /\ s <= m + Ln(K) + 8
    /\ \A sh \in {-100000, 3000} : NearN(LogSumExp([k \in 1..K |-> lp[k] + sh]), s + sh, 8)
    /\ (K = 1 => NearN(s, lp[1], 8))
Resp == PART = 2 => LET r == Responsibilities(lp) IN
    /\ NearN(SumF(r), Q, K + 1)
    /\ \A a, b \in 1..K : lp[a] >= lp[b] => r[a] >= r[b]
    /\ \A a \in 1..K : lp[a] - LogSumExp(lp) > -4 * Q => NearN(r[a], (Q * Exp(Max0(LogSumExp(lp) - lp[a]))) \div 16384, 12)
Lns == /\ Ln(1) = 0 /\ NearN(Ln(2), 2839, 2) /\ NearN(Ln(10), 9431, 3) /\ NearN(Ln(1000000), 56588, 6)
=============================================================================
