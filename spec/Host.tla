-------------------------------- MODULE Host --------------------------------
(* Evaluating a converted model from Python: a table is written as text, one *)
(* line per row, to a program which calls the C function once per line and   *)
(* writes one line of results per call (one per class for probabilities).    *)
EXTENDS Integers, Sequences, Big
\* --- what a caller relies on -------------------------------------------------
\* n rows, answers of the C function per row, and what was returned
OnePerRow(returned, answers) == returned = answers
MayRaise(fits) == ~fits
\* --- values on their way through the text: eight decimals, then single precision.
\* bigs in units of 2^-64; half a unit of the 8th decimal is 2^64/2*10^-8
HalfEighth == FromInt(2000000000)           \* 46 * 2*10^9 < 2^64/(2*10^8) < 47 * 2*10^9
\* |c - x| <= half of the 8th decimal + 2^-24 |x|
Intact(c, x) == LeB(MulB(Pow2B(24), AbsB(SubB(c, x))), AddB(MulB(Pow2B(24), MulB(FromInt(47), HalfEighth)), AbsB(x)))
\* --- the reader of the program -------------------------------------------------
COMMA == 10
NL == 11
RECURSIVE Line(_)
Line(cells) == IF Len(cells) = 1 THEN cells[1] ELSE cells[1] \o <<COMMA>> \o Line(Tail(cells))
RECURSIVE Text(_)
Text(rows) == IF Len(rows) = 1 THEN Line(rows[1]) ELSE Line(rows[1]) \o <<NL>> \o Text(Tail(rows))
RECURSIVE Until(_, _, _)
\* number of characters fgets takes: at most cap, through the first newline
Until(t, k, cap) == IF k = cap \/ k = Len(t) THEN k ELSE IF t[k + 1] = NL THEN k + 1 ELSE Until(t, k + 1, cap)
RECURSIVE Cells(_, _)
Cells(s, cur) == IF s = <<>> THEN <<cur>> ELSE IF Head(s) = NL THEN <<cur>> ELSE IF Head(s) = COMMA THEN <<cur>> \o Cells(Tail(s), <<>>) ELSE Cells(Tail(s), Append(cur, Head(s)))
=============================================================================
