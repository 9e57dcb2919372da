------------------------------- MODULE Mel_MC -------------------------------
(* One band computed as two passes over the bins (up to the centre bin, then  *)
(* from the next one to the upper bin), one step a bin, for every triple of   *)
(* limits on a grid: it gives the triangle, and reads inside of the spectrum  *)
(* when the limits are inside of the band of the spectrum.                    *)
EXTENDS Mel, TLC
CONSTANTS N, SR, GRID
VARIABLES lo, c, hi, phase, k, w, reads
vars == <<lo, c, hi, phase, k, w, reads>>
Bin(f) == ((N + 1) * f) \div (SR * 100)
Clamp(x) == IF x < 0 THEN 0 ELSE IF x > W1 THEN W1 ELSE x
\* quotient rounded towards zero, like the weights
Quo(a, b) == IF a < 0 THEN -((-a * W1) \div b) ELSE (a * W1) \div b
Init == /\ lo \in GRID /\ c \in GRID /\ hi \in GRID /\ lo < c /\ c < hi
        /\ phase = "rise" /\ k = Bin(lo) /\ w = [i \in 0..(N \div 2) |-> 0] /\ reads = {}
Rise == phase = "rise" /\ IF k > Bin(c) THEN phase' = "fall" /\ k' = Bin(c) /\ UNCHANGED <<w, reads>>
        ELSE /\ reads' = reads \cup {k} /\ k' = k + 1 /\ UNCHANGED phase
             /\ w' = IF k \in DOMAIN w THEN [w EXCEPT ![k] = Clamp(Quo(BinFreq(k, N, SR) - lo, c - lo))] ELSE w
Fall == phase = "fall" /\ IF k >= Bin(hi) THEN phase' = "done" /\ UNCHANGED <<k, w, reads>>
        ELSE /\ reads' = reads \cup {k + 1} /\ k' = k + 1 /\ UNCHANGED phase
             /\ w' = IF k + 1 \in DOMAIN w THEN [w EXCEPT ![k + 1] = Clamp(Quo(hi - BinFreq(k + 1, N, SR), hi - c))] ELSE w
Next == (Rise \/ Fall) /\ UNCHANGED <<lo, c, hi>>
Done == phase = "done"
Right == Done => \A i \in DOMAIN w : Least(i, N, SR, lo, c, hi) <= w[i] /\ w[i] <= Most(i, N, SR, lo, c, hi)
Inside == Holds(N, SR, lo, hi) => reads \subseteq DOMAIN w
Outside == Lacks(N, SR, lo, hi) => Bin(hi) > N \div 2
=============================================================================
