----------------------------- MODULE ArrayTable -----------------------------
(* Two-dimensional arrays as tables.  An array is                           *)
(*   [cols, rows, vs, t]   t: sequence of rows, each a sequence of cols      *)
(*                         integers; vs: bytes per element                   *)
(* None is an array that was never successfully initialised.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [cols |-> 0, rows |-> 0, vs |-> 0, t |-> <<>>]
Live(a) == a.cols > 0

(* ---- initialisation over a buffer of `len` bytes ---- *)
CanInit(cols, rows, vs, len) == cols >= 1 /\ rows >= 0 /\ cols * rows * vs <= len
(* ---- addressing: -1 = rejected, else the byte offset ---- *)
Address(a, col, row) == IF Live(a) /\ col >= 0 /\ col < a.cols /\ row >= 0 /\ row < a.rows THEN (row * a.cols + col) * a.vs ELSE -1
Put(a, col, row, v) == IF Address(a, col, row) < 0 THEN a ELSE [a EXCEPT !.t[row + 1][col + 1] = v]
(* ---- fill and sum exist for 2-byte elements ---- *)
CanFill(a) == Live(a) /\ a.vs = 2
Fill(a, v) == IF CanFill(a) THEN [a EXCEPT !.t = TLCEval([r \in 1..a.rows |-> [c \in 1..a.cols |-> v]])] ELSE a
RECURSIVE SumOf(_, _, _, _)        \* sum of F(x[i]) for lo <= i <= hi, by halves
SumOf(F(_), x, lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN F(x[lo])
                          ELSE LET m == (lo + hi) \div 2 IN SumOf(F, x, lo, m) + SumOf(F, x, m + 1, hi)
SumRow(r) == SumOf(LAMBDA v : v, r, 1, Len(r))
SumRows(t) == SumOf(SumRow, t, 1, Len(t))
(* ---- rows ---- *)
CanShift(a, s) == Live(a) /\ s <= 0 /\ a.rows + s >= 0
Shift(a, s) == IF CanShift(a, s) THEN [a EXCEPT !.t = TLCEval([r \in 1..a.rows |-> IF r - s <= a.rows THEN a.t[r - s] ELSE a.t[r]])] ELSE a
CanCopy(a, start, o) == /\ Live(a) /\ Live(o) /\ start >= 0 /\ o.cols = a.cols /\ o.vs = a.vs
                        /\ start <= a.rows - o.rows
Copy(a, start, o) == IF CanCopy(a, start, o)
                     THEN [a EXCEPT !.t = TLCEval([r \in 1..a.rows |-> IF r > start /\ r <= start + o.rows THEN o.t[r - start] ELSE a.t[r]])] ELSE a
(* ---- sliding window: make room at the end, append the chunk ---- *)
Push(a, o) == IF CanShift(a, -o.rows) /\ CanCopy(a, a.rows - o.rows, o) THEN Copy(Shift(a, -o.rows), a.rows - o.rows, o) ELSE a
Last(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
=============================================================================
