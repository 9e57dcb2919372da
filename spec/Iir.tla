-------------------------------- MODULE Iir --------------------------------
(* Cascades of second-order sections.  A section is <<b0, b1, b2, a1, a2>>. *)
(* The definition: the difference equation over the section's own last two *)
(* inputs and outputs.  Memory of a filter: one [x1, x2, y1, y2] a stage.   *)
EXTENDS Integers, Sequences
Zero == [x1 |-> 0, x2 |-> 0, y1 |-> 0, y2 |-> 0]
Fresh(sos) == [k \in 1..Len(sos) |-> Zero]
Diff(c, m, x) == c[1]*x + c[2]*m.x1 + c[3]*m.x2 - c[4]*m.y1 - c[5]*m.y2
Shift(m, x, y) == [x1 |-> x, x2 |-> m.x1, y1 |-> y, y2 |-> m.y1]
RECURSIVE Run(_, _, _, _)
\* one sample through stages k..: <<output, memory>>
Run(sos, mem, x, k) ==
    IF k > Len(sos) THEN <<x, mem>>
    ELSE LET y == Diff(sos[k], mem[k], x) IN Run(sos, [mem EXCEPT ![k] = Shift(@, x, y)], y, k + 1)
Feed(sos, mem, x) == Run(sos, mem, x, 1)
(* ---- the transposed form the library uses: two sums per stage ---- *)
RECURSIVE RunT(_, _, _, _)
RunT(sos, w, x, k) ==
    IF k > Len(sos) THEN <<x, w>>
    ELSE LET c == sos[k]
             y == w[k][1] + c[1]*x
         IN RunT(sos, [w EXCEPT ![k] = <<w[k][2] + c[2]*x - c[4]*y, c[3]*x - c[5]*y>>], y, k + 1)
FreshT(sos) == [k \in 1..Len(sos) |-> <<0, 0>>]
\* what the two sums stand for
Abstraction(sos, mem, w) == \A k \in 1..Len(sos) : LET c == sos[k] m == mem[k] IN
    /\ w[k][1] = c[2]*m.x1 + c[3]*m.x2 - c[4]*m.y1 - c[5]*m.y2
    /\ w[k][2] = c[3]*m.x1 - c[5]*m.y1
CheckOK(stages, states, nstates, coefs, ncoefs) ==
    stages >= 1 /\ states /\ coefs /\ nstates = 4*stages /\ ncoefs = 6*stages
=============================================================================
