------------------------------- MODULE Quant_MC -------------------------------
(* The rule itself: saturating, odd, monotone, sign keeping, invertible to    *)
(* less than one step; and the interval test used on recorded data agrees.    *)
EXTENDS Quant
CONSTANTS VMAX, MAXS, NUMS, DENS
VARIABLES v, w, num, den, max
vars == <<v, w, num, den, max>>
S == 0..(2 * VMAX)
Init == \E x, y \in S : v = x - VMAX /\ w = y - VMAX /\ num \in NUMS /\ den \in DENS /\ max \in MAXS
Next == UNCHANGED vars
Q(x) == Quantise(x, num, den, max)
Saturates == Q(v) >= -max /\ Q(v) <= max
Odd == Q(-v) = -Q(v)
SignKept == Q(v) * v >= 0
Monotone == v <= w => Q(v) <= Q(w)
\* inverse q*den/num differs from v by less than one step den/num unless clipped
Inverse == LET d == Q(v) * den - v * num IN
           (TruncI(v * num, den) <= max /\ TruncI(v * num, den) >= -max) => (d < den /\ -d < den)
Judged == \A q \in 0..(2 * max) : LET y == q - max IN
             Admissible(FromInt(v * num), Zero0, FromInt(den), FromInt(y), FromInt(-max), FromInt(max)) = (y = Q(v))
=============================================================================
