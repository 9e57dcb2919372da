------------------------------ MODULE Fft_MC ------------------------------
(* The algorithm over the ring of integers modulo 17: any N in {1,2,4,8,16},*)
(* W a primitive N-th root with W^(N/2) = -1.  After the pass of size s every*)
(* block of s entries is the DFT of the entries of the input it stands for  *)
(* (those with the same low bits); after the last pass: the DFT itself.     *)
EXTENDS Fft, TLC
CONSTANTS N, W, XS
P == 17
VARIABLES x, a, pc, i, size
vars == <<x, a, pc, i, size>>
RECURSIVE PowP(_, _)
PowP(b, e) == IF e = 0 THEN 1 ELSE (b * PowP(b, e - 1)) % P
Root == [e \in 0..(N - 1) |-> PowP(W, e)]
RECURSIVE Sum(_, _, _, _, _)
\* SUM over j < len of x[off + j*stride] w_len^(j k)
Sum(off, stride, len, k, j) == IF j = len THEN 0 ELSE (x[off + j * stride] * Root[((N \div len) * j * k) % N] + Sum(off, stride, len, k, j + 1)) % P
Init == x \in [0..(N - 1) -> XS] /\ a = x /\ pc = "swap" /\ i = 0 /\ size = 1
Swap == /\ pc = "swap"
        /\ LET j == Rev(i, Log2(N)) IN
           /\ a' = IF j > i THEN [a EXCEPT ![i] = a[j], ![j] = a[i]] ELSE a
        /\ i' = i + 1 /\ pc' = (IF i + 1 = N THEN "pass" ELSE "swap") /\ UNCHANGED <<x, size>>
Pass == /\ pc = "pass" /\ size < N
        /\ LET s == size * 2  h == size IN
           /\ a' = [q \in 0..(N - 1) |->
                LET o == q % s IN
                IF o < h THEN (a[q] + a[q + h] * Root[o * (N \div s)]) % P
                ELSE (a[q - h] - a[q] * Root[(o - h) * (N \div s)]) % P]
           /\ size' = s
        /\ UNCHANGED <<x, pc, i>>
Next == Swap \/ Pass
Primitive == Root[0] = 1 /\ (N > 1 => Root[N \div 2] = P - 1)
Reversed == pc = "pass" /\ size = 1 => \A q \in 0..(N - 1) : a[q] = x[Rev(q, Log2(N))]
Blocks == pc = "pass" => \A q \in 0..(N - 1) :
    LET b == q \div size  stride == N \div size IN a[q] = Sum(Rev(b, Log2(stride)), stride, size, q % size, 0)
Involution == \A q \in 0..(N - 1) : Rev(Rev(q, Log2(N)), Log2(N)) = q
=============================================================================
