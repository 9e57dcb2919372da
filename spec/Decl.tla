-------------------------------- MODULE Decl --------------------------------
(* Declarations of constants and tables as text: a sequence of words between*)
(* blanks (a word is a sequence of characters).  Wrapping may turn a blank  *)
(* into a line break and nothing else.  Numbers are written in decimal.     *)
EXTENDS Integers, Sequences
\* ---------- decimal numbers ----------
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)
Print(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
RECURSIVE Value(_, _)
Value(d, acc) == IF d = <<>> THEN acc ELSE Value(Tail(d), acc * 10 + Head(d))
Read(t) == IF t # <<>> /\ Head(t) = 45 THEN -Value(Tail(t), 0) ELSE Value(t, 0)
\* reading into a type of W bits (signed or not)
Into(v, W, signed) == LET m == v % 2^W IN IF signed /\ m >= 2^(W - 1) THEN m - 2^W ELSE m
InRange(v, W, signed) == IF signed THEN -(2^(W - 1)) <= v /\ v < 2^(W - 1) ELSE 0 <= v /\ v < 2^W
\* ---------- line wrapping ----------
RECURSIVE Width(_)
Width(line) == IF line = <<>> THEN 0 ELSE IF Len(line) = 1 THEN Len(line[1]) ELSE Len(line[1]) + 1 + Width(Tail(line))
RECURSIVE Wrap(_, _, _)
\* greedy: words, the line so far, the width
Wrap(words, line, w) ==
    IF words = <<>> THEN (IF line = <<>> THEN <<>> ELSE <<line>>)
    ELSE LET l2 == Append(line, Head(words)) IN
         IF line = <<>> \/ Width(l2) <= w THEN Wrap(Tail(words), l2, w) ELSE <<line>> \o Wrap(words, <<>>, w)
RECURSIVE Cat(_)
Cat(lines) == IF lines = <<>> THEN <<>> ELSE Head(lines) \o Cat(Tail(lines))
=============================================================================
