-------------------------------- MODULE Net --------------------------------
(* Feed-forward networks of dense layers, evaluated layer by layer in exact *)
(* integers or, where a transcendental activation comes in, in fixed point  *)
(* with a bound on the error that is carried along.                          *)
(* A value vector is [v |-> integers, S |-> scale, tol |-> error bound in    *)
(* units of 1/S].  A layer is [w |-> w[i][o], b |-> biases, act |-> name];   *)
(* weights are in units of 1/WS, biases in units of 1/BS (BS divides S).     *)
EXTENDS Integers, Sequences, TLC
Q == 4096
AbsN(x) == IF x < 0 THEN -x ELSE x
MaxN(a, b) == IF a > b THEN a ELSE b
(* ---- exp(-t/Q) in units of 2^-14, for t >= 0 ---- *)
EK == <<65536, 24109, 8869, 3263, 1200, 442, 162, 60, 22, 8, 3, 1>>
RECURSIVE Horner(_, _, _)
Horner(f, n, acc) == IF n = 0 THEN acc ELSE Horner(f, n - 1, 16384 - (f * acc) \div (n * Q))
Exp(t) == LET k == t \div Q IN IF k >= Len(EK) THEN 0 ELSE (EK[k + 1] * Horner(t % Q, 8, 16384)) \div 65536
(* ---- activations of one number z in units of 1/S (S divides Q), result in units of 1/Q ---- *)
Clip(z, S) == IF z > 16 * S THEN 16 * S ELSE IF z < -16 * S THEN -16 * S ELSE z
ToQ(z, S) == Clip(z, S) * (Q \div S)
Logistic(z) == IF z >= 0 THEN (Q * 16384) \div (16384 + Exp(z)) ELSE Q - (Q * 16384) \div (16384 + Exp(-z))
Tanh(z) == 2 * Logistic(2 * z) - Q
(* ---- the same to about 2^-16, results in units of 2^-18 ---- *)
RECURSIVE HornerF(_, _, _)
HornerF(f, n, acc) == IF n = 0 THEN acc ELSE HornerF(f, n - 1, 262144 - (f * acc) \div (n * Q))
ExpF(t) == LET k == t \div Q  h == HornerF(t % Q, 9, 262144) IN
           IF k = 0 THEN h ELSE IF k >= Len(EK) THEN 0 ELSE (EK[k + 1] * (h \div 512)) \div 128 + (EK[k + 1] * (h % 512)) \div 65536
LogisticF(z) == IF z < 0 THEN 262144 - LET d == 262144 + ExpF(-z) IN (1073741824 \div d) * 64 + ((1073741824 % d) * 64) \div d
                ELSE LET d == 262144 + ExpF(z) IN (1073741824 \div d) * 64 + ((1073741824 % d) * 64) \div d
TanhF(z) == 2 * LogisticF(2 * z) - 262144
TolF == 32
Relu(z) == IF z < 0 THEN 0 ELSE z
RECURSIVE MaxOf(_, _)
MaxOf(v, n) == IF n = 1 THEN v[1] ELSE MaxN(v[n], MaxOf(v, n - 1))
RECURSIVE SumOf(_, _)
SumOf(v, n) == IF n = 0 THEN 0 ELSE v[n] + SumOf(v, n - 1)
Softmax(v, S) == LET m == MaxOf(v, Len(v))
                     e == TLCEval([k \in 1..Len(v) |-> Exp(ToQ(m - v[k], S))])
                     t == SumOf(e, Len(e))
                 IN TLCEval([k \in 1..Len(v) |-> (e[k] * Q) \div t])
TolQ(tol, S) == tol * (Q \div S)
Activate(act, x) ==
    LET n == Len(x.v)  t == TolQ(x.tol, x.S) IN
    CASE act = "identity" -> x
      [] act = "relu" -> [x EXCEPT !.v = TLCEval([k \in 1..n |-> Relu(x.v[k])])]
      [] act = "logistic" -> [v |-> TLCEval([k \in 1..n |-> Logistic(ToQ(x.v[k], x.S))]), S |-> Q, tol |-> t \div 4 + 4]
      [] act = "tanh" -> [v |-> TLCEval([k \in 1..n |-> Tanh(ToQ(x.v[k], x.S))]), S |-> Q, tol |-> t + 8]
      [] act = "softmax" -> [v |-> Softmax(x.v, x.S), S |-> Q, tol |-> t + n + 5]
Acts == {"identity", "relu", "logistic", "tanh", "softmax"}
(* ---- one layer ---- *)
RECURSIVE Dot(_, _, _, _)
Dot(w, v, o, i) == IF i = 0 THEN 0 ELSE v[i] * w[i][o] + Dot(w, v, o, i - 1)
RECURSIVE Gain(_, _, _)
Gain(w, o, i) == IF i = 0 THEN 0 ELSE AbsN(w[i][o]) + Gain(w, o, i - 1)
Affine(layer, x, WS, BS) ==
    LET n == Len(layer.b)
        z == TLCEval([o \in 1..n |-> Dot(layer.w, x.v, o, Len(x.v)) \div WS + layer.b[o] * (x.S \div BS)])
        exact == x.S = 1 /\ WS = 1
        slack == IF exact THEN 0 ELSE 2 + MaxOf([o \in 1..n |-> AbsN(z[o])], n) \div 32768
        gain == IF x.tol = 0 THEN 0 ELSE MaxOf([o \in 1..n |-> Gain(layer.w, o, Len(x.v))], n)
    IN [v |-> z, S |-> x.S, tol |-> (gain * x.tol) \div WS + slack]
RECURSIVE Forward(_, _, _, _)
\* <<pre-activation of the last layer, output>>
Forward(layers, x, WS, BS) ==
    LET z == Affine(Head(layers), x, WS, BS)  y == Activate(Head(layers).act, z) IN
    IF Len(layers) = 1 THEN <<z, y>> ELSE Forward(Tail(layers), y, WS, BS)
(* ---- what is reported ---- *)
Decisive(layers) == layers[Len(layers)].act
\* the numbers whose order decides: softmax and the single logistic keep the order of their inputs
Scores(layers, fw) == IF Decisive(layers) = "softmax" THEN fw[1] ELSE fw[2]
ClassOK(layers, fw, cls) ==
    LET n == Len(fw[2].v) IN
    IF n = 1
    THEN LET z == IF Decisive(layers) = "logistic" THEN fw[1] ELSE fw[2]
             half == IF Decisive(layers) = "logistic" THEN 0 ELSE z.S          \* compare 2 v with it
         IN IF 2 * (z.v[1] - z.tol) > half THEN cls = 1 ELSE IF 2 * (z.v[1] + z.tol) <= half THEN cls = 0 ELSE cls \in {0, 1}
    ELSE LET s == Scores(layers, fw)  m == MaxOf(s.v, n) IN
         /\ cls \in 0..(n - 1)
         /\ s.v[cls + 1] + 2 * s.tol >= m
         /\ (s.tol = 0 => \A k \in 1..cls : s.v[k] < m)
Proba(fw) == LET y == fw[2] q == Q \div y.S IN
    IF Len(y.v) = 1 THEN <<Q - y.v[1] * q, y.v[1] * q>> ELSE [k \in 1..Len(y.v) |-> y.v[k] * q]
=============================================================================
