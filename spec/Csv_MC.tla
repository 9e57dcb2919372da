------------------------------- MODULE Csv_MC -------------------------------
(* Design of writer and reader over a faulty stream, and generator of       *)
(* histories.  Rows are numbered; a row in the stream is a complete line.   *)
(* The writer checks a row completely before writing any byte of it; the    *)
(* reader moves its position only after a row was delivered.                *)
EXTENDS Csv, TLC, Json
CONSTANTS MAXROWS, MAXFAULT, DEPTH, EMIT
VARIABLES text, written, wbroken, header, pos, got, faults, rerr, h
vars == <<text, written, wbroken, header, pos, got, faults, rerr, h>>
Digit(i) == 48 + i
RowText(i) == Row(<<<<Digit(i)>>, <<MINUS, Digit(i)>>>>)
Head0 == Row(<<<<97>>, <<98>>>>)
Init == text = <<>> /\ written = <<>> /\ wbroken = FALSE /\ header = "none" /\ pos = 0 /\ got = <<>> /\ faults = 0 /\ rerr = FALSE /\ h = <<>>
Log(o) == h' = Append(h, o)
WHeader == /\ header = "none" /\ text' = Head0 /\ header' = "written" /\ Log([op |-> "wheader"])
           /\ UNCHANGED <<written, wbroken, pos, got, faults, rerr>>
WGood == /\ header = "written" /\ ~wbroken /\ Len(written) < MAXROWS
         /\ LET i == Len(written) + 1 IN text' = text \o RowText(i) /\ written' = Append(written, i)
         /\ Log([op |-> "wgood"]) /\ UNCHANGED <<wbroken, header, pos, got, faults, rerr>>
WBad == /\ header = "written" /\ ~wbroken
        /\ \E k \in {"wcount", "wwide"} : Log([op |-> k]) /\ UNCHANGED <<text, written, wbroken, header, pos, got, faults, rerr>>
\* a write that fails part way is reported; what it left in the stream is the prefix of a row
WFault == /\ header = "written" /\ ~wbroken /\ faults < MAXFAULT /\ Len(written) < MAXROWS
          /\ \E n \in 0..2 : text' = text \o SubSeq(RowText(Len(written) + 1), 1, n)
                             /\ wbroken' = (n > 0)
                             /\ Log([op |-> "wfault", n |-> n])
          /\ faults' = faults + 1 /\ UNCHANGED <<written, header, pos, got, rerr>>
Open == /\ header = "written" /\ header' = "open" /\ Log([op |-> "open"])
        /\ UNCHANGED <<text, written, wbroken, pos, got, faults, rerr>>
RHeader == /\ header = "open" /\ header' = "read" /\ pos' = NextLine(text, 1) /\ Log([op |-> "rheader"])
           /\ UNCHANGED <<text, written, wbroken, got, faults, rerr>>
Read == /\ header = "read"
        /\ IF AtEnd(text, pos) THEN UNCHANGED <<pos, got, rerr>>
           ELSE IF Complete(text, pos, 2, 100) THEN /\ got' = Append(got, Fields(LineAt(text, pos))[1][1] - 48) /\ pos' = NextLine(text, pos) /\ rerr' = FALSE
           ELSE rerr' = TRUE /\ UNCHANGED <<pos, got>>
        /\ Log([op |-> "read"]) /\ UNCHANGED <<text, written, wbroken, header, faults>>
RFault == /\ header = "read" /\ faults < MAXFAULT /\ faults' = faults + 1
          /\ \E k \in {"rfail", "sfail"} : Log([op |-> k])
          /\ rerr' = TRUE /\ UNCHANGED <<text, written, wbroken, header, pos, got>>
Next == Len(h) < DEPTH /\ (WHeader \/ WGood \/ WBad \/ WFault \/ Open \/ RHeader \/ Read \/ RFault)
Emit == (EMIT /\ Len(h) = DEPTH /\ header = "read") => PrintT("BEH " \o ToJson(h))
View == <<text, written, header, pos, got, faults, rerr, Len(h)>>
IsPrefixC(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Prefix == IsPrefixC(got, written)
EndMeansAll == (header = "read" /\ AtEnd(text, pos)) => got = written
NoCorruption == ~wbroken => (text = <<>> \/ LET n == Len(written) IN Len(text) = 4 + 5 * n)
ASSUME \A a, b \in {<<>>, <<97>>, <<97, 98>>, <<COMMA - 1>>} : Fields(Join(<<a, b, a>>)) = <<a, b, a>> /\ Fields(Join(<<a>>)) = <<a>>
ASSUME Number(<<45, 49, 50, 46, 53, 48, 48, 48, 48, 48>>) = [neg |-> TRUE, mag |-> <<0, 12, 500000>>]
=============================================================================
