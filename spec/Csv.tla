-------------------------------- MODULE Csv --------------------------------
(* Text streams with comma separated rows.  Text is a sequence of byte      *)
(* codes.  A stream is text plus a position; a row is complete only with    *)
(* its end of line.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
COMMA == 44
EOL == 10
MINUS == 45
DOT == 46

\* index of the first code c in text at or after i; 0 if none
RECURSIVE Find(_, _, _)
Find(text, c, i) ==      \* by blocks: TLC is slow in deep recursion
    IF i > Len(text) THEN 0
    ELSE LET S == TLCEval({j \in i..(IF i + 99 < Len(text) THEN i + 99 ELSE Len(text)) : text[j] = c})
         IN IF S = {} THEN Find(text, c, i + 100) ELSE CHOOSE j \in S : \A k \in S : j <= k
\* the line that starts at 1-based position p (without its end of line), and whether it is terminated
LineEnd(text, p) == LET e == Find(text, EOL, p) IN IF e = 0 THEN Len(text) + 1 ELSE e
LineAt(text, p) == SubSeq(text, p, LineEnd(text, p) - 1)
Terminated(text, p) == Find(text, EOL, p) # 0
NextLine(text, p) == LineEnd(text, p) + 1
Fields(line) == LET at == TLCEval(SetToSortSeq({j \in 1..Len(line) : line[j] = COMMA}, LAMBDA x, y : x < y))
                    cuts == TLCEval(<<0>> \o at \o <<Len(line) + 1>>)
                IN TLCEval([i \in 1..(Len(at) + 1) |-> SubSeq(line, cuts[i] + 1, cuts[i + 1] - 1)])
Join(fs) == FoldLeft(LAMBDA acc, f : acc \o <<COMMA>> \o f, Head(fs), Tail(fs))
Row(fs) == Join(fs) \o <<EOL>>

(* ---- decimal numbers: [neg, mag] with mag = micro units in base 10^6 limbs <<a, b, c>> (c lowest) ---- *)
IsDigit(b) == b >= 48 /\ b <= 57
RECURSIVE AllDigits(_)
AllDigits(s) == s = <<>> \/ (IsDigit(Head(s)) /\ AllDigits(Tail(s)))
RECURSIVE NumOf(_, _)
NumOf(s, acc) == IF s = <<>> THEN acc ELSE NumOf(Tail(s), acc * 10 + Head(s) - 48)
Right(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
DropRight(s, n) == IF Len(s) <= n THEN <<>> ELSE SubSeq(s, 1, Len(s) - n)
\* text of a number with at least six decimals
Unsigned(t) == IF t # <<>> /\ Head(t) = MINUS THEN Tail(t) ELSE t
IsNumber(t) == LET u == Unsigned(t)  d == Find(u, DOT, 1) IN
    d > 1 /\ Len(u) - d >= 6 /\ AllDigits(SubSeq(u, 1, d - 1)) /\ AllDigits(SubSeq(u, d + 1, Len(u)))
Number(t) == LET u == Unsigned(t)  d == Find(u, DOT, 1)  w == SubSeq(u, 1, d - 1)
             IN [neg |-> Head(t) = MINUS,
                 mag |-> <<NumOf(Right(DropRight(w, 6), 6), 0), NumOf(Right(w, 6), 0), NumOf(SubSeq(u, d + 1, d + 6), 0)>>]
M6 == 1000000
AbsC(x) == IF x < 0 THEN -x ELSE x
CloseMag(x, y) == LET da == x[1] - y[1] IN AbsC(da) <= 1 /\
                  LET db == da * M6 + x[2] - y[2] IN AbsC(db) <= 1 /\ AbsC(db * M6 + x[3] - y[3]) <= 1
Zero(m) == m[1] = 0 /\ m[2] = 0 /\ m[3] <= 1
Close(x, y) == CloseMag(x.mag, y.mag) /\ (x.neg = y.neg \/ (Zero(x.mag) /\ Zero(y.mag)))

(* ---- reader ---- *)
\* what the next read of a data row may answer: n fields, 0 at the end, "error"
Complete(text, p, n, buflen) ==
    /\ Terminated(text, p) /\ Len(Fields(LineAt(text, p))) = n
    /\ Len(LineAt(text, p)) + 1 <= buflen
AtEnd(text, p) == p > Len(text)
=============================================================================
