----------------------------- MODULE Isqrt_MC -----------------------------
(* The digit-by-digit integer square root used for distances, step by step,*)
(* in words of W bits (the real code: 64 bits for inputs below 2^62): it   *)
(* terminates with floor(sqrt(x)) for every input below 2^(W-2), and the   *)
(* doubling of q never overflows for those.                                *)
EXTENDS Integers
CONSTANT W
VARIABLES x0, x, q, r, pc
vars == <<x0, x, q, r, pc>>
Pow(n) == 2^n
Init == x0 \in 0..(Pow(W - 2) - 1) /\ x = x0 /\ q = 1 /\ r = 0 /\ pc = "grow"
Grow == pc = "grow" /\ IF q <= x THEN q' = (q * 4) % Pow(W) /\ UNCHANGED <<x0, x, r, pc>>
                       ELSE pc' = "dig" /\ UNCHANGED <<x0, x, q, r>>
Dig == pc = "dig" /\ IF q > 1
         THEN LET q1 == q \div 4  t == x - r - q1 IN
              /\ q' = q1
              /\ IF t >= 0 THEN x' = t /\ r' = r \div 2 + q1 ELSE x' = x /\ r' = r \div 2
              /\ UNCHANGED <<x0, pc>>
         ELSE pc' = "done" /\ UNCHANGED <<x0, x, q, r>>
Next == Grow \/ Dig
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Root == pc = "done" => r * r <= x0 /\ x0 < (r + 1) * (r + 1)
NoOverflow == q > 0 /\ (q * 4 < Pow(W) \/ pc # "grow" \/ q > x)
Terminates == <>(pc = "done")
=============================================================================
