--------------------------- MODULE SoftLevels_MC ---------------------------
(* The quantisation of leaf proportions: for every bit width and every     *)
(* proportion of a grid, the stored byte stays within half a level (plus   *)
(* the byte truncation) of the proportion, is monotonic, and keeps 0 and 1.*)
EXTENDS Forest, TLC
CONSTANT ONE
VARIABLES bits, p
N0 == Pow2(bits) - 2
Init == bits \in 2..8 /\ p = 0
Next == p < ONE /\ p' = p + 1 /\ UNCHANGED bits
Bytes(q) == {b \in 0..255 : ByteOK(q, ONE, bits, b)}
AbsD(a, b) == IF a > b THEN a - b ELSE b - a
\* |b/255 - p/ONE| <= 1/(2 N0) + 1/255
Near == Bytes(p) # {} /\ \A b \in Bytes(p) : AbsD(b * ONE, p * 255) * 2 * N0 <= 255 * ONE + 2 * N0 * ONE
Monotone == p < ONE => \A a \in Bytes(p) : \E b \in Bytes(p + 1) : a <= b
\* the bounds used when judging recorded runs admit exactly these bytes, rounded up or down
Bounds == /\ LevelByteLo(p, ONE, bits) = (CHOOSE a \in Bytes(p) : \A b \in Bytes(p) : a <= b)
          /\ LevelByteHi(p, ONE, bits) \in {(CHOOSE a \in Bytes(p) : \A b \in Bytes(p) : a >= b) + d : d \in {0, 1}}
          /\ LevelByteHi(p, ONE, bits) <= 255
Ends == (p = 0 => Bytes(p) = {0}) /\ (p = ONE => Bytes(p) = {255})
=============================================================================
