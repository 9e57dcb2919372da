----------------------------- MODULE NetExp_MC -----------------------------
(* The fixed-point exponential and the activations built on it, on the whole *)
(* range of their argument.                                                  *)
EXTENDS Net
CONSTANT STEP
VARIABLE t
Init == t = 0
Next == t + STEP <= 13 * Q /\ t' = t + STEP
NearN(a, b, d) == AbsN(a - b) <= d
Us == {1, 100, 2048, 4096, 5000, 9000, 20000}
Falling == t > 0 => Exp(t) <= Exp(t - 1) + 1
Multiplies == \A u \in Us : NearN((Exp(t) * Exp(u)) \div 16384, Exp(t + u), 4)
Anchors == Exp(0) = 16384 /\ NearN(Exp(Q), 6027, 2) /\ NearN(Exp(2 * Q), 2217, 2) /\ NearN(Exp(Q \div 2), 9937, 2)
\* the derivative of exp(-t) is -exp(-t)
Slope == NearN(Exp(t) - Exp(t + 64), (Exp(t) * 64) \div Q - (Exp(t) * 64 * 64) \div (2 * Q * Q), 4)
Symmetric == NearN(Logistic(t) + Logistic(-t), Q, 1) /\ NearN(Tanh(t \div 2) + Tanh(-(t \div 2)), 0, 2)
\* logistic(z) = 1 / (1 + exp(-z))
Inverse == NearN(Logistic(t) * (16384 + Exp(t)), Q * 16384, 4 * 16384 * 2)
SumsToOne == LET p == Softmax(<<t, 0, 3000, -t>>, Q) IN NearN(SumOf(p, 4), Q, 4) /\ p[1] >= p[4]
TwoClasses == NearN(Softmax(<<t, 0>>, Q)[1], Logistic(t), 4)
\* the fine functions
FineAgrees == NearN(LogisticF(t) \div 64, Logistic(t), 3) /\ NearN(ExpF(t) \div 16, Exp(t), 3)
FineAnchors == t = 0 => /\ LogisticF(0) = 131072 /\ NearN(LogisticF(Q), 191643, 6) /\ NearN(LogisticF(3 * Q), 249712, 6) /\ NearN(LogisticF(-2 * Q), 31248, 6)
                        /\ NearN(TanhF(Q), 199647, 12) /\ NearN(TanhF(Q \div 2), 121141, 12) /\ NearN(TanhF(-2 * Q), -252714, 12) /\ NearN(TanhF(4 * Q), 261968, 12)
\* the derivative of the logistic function is y (1 - y)
FineSlope == LET y == LogisticF(t + 32) IN NearN(LogisticF(t + 64) - LogisticF(t), ((((y \div 8) * ((262144 - y) \div 8)) \div 4096) * 64) \div Q, 10)
=============================================================================
