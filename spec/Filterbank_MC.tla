---------------------------- MODULE Filterbank_MC ----------------------------
(* The single pass over the coefficient table, one coefficient a step, for   *)
(* every matrix and every input of a small size.                             *)
EXTENDS Filterbank
CONSTANTS ROWS, COLS, COEF, XS
VARIABLES M, x, i, j, off, out
vars == <<M, x, i, j, off, out>>
S == Sparse(M)
Init == /\ M \in [1..ROWS -> [1..COLS -> COEF]] /\ x \in [1..COLS -> XS]
        /\ i = 1 /\ j = Sparse(M).starts[1] /\ off = 1 /\ out = [r \in 1..ROWS |-> 0]
Step == /\ i <= ROWS
        /\ IF j <= S.stops[i]
           THEN out' = [out EXCEPT ![i] = @ + x[j] * S.lut[off]] /\ off' = off + 1 /\ j' = j + 1 /\ UNCHANGED i
           ELSE i' = i + 1 /\ j' = (IF i + 1 <= ROWS THEN S.starts[i + 1] ELSE 1) /\ UNCHANGED <<out, off>>
        /\ UNCHANGED <<M, x>>
Next == Step
InTable == i <= ROWS /\ j <= S.stops[i] => off <= Len(S.lut) /\ j \in 1..COLS
Product == i > ROWS => out = Dense(M, x) /\ off = Len(S.lut) + 1
Prefix == \A r \in 1..ROWS : r < i => out[r] = Dense(M, x)[r]
=============================================================================
