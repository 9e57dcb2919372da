------------------------------ MODULE Host_MC ------------------------------
(* The pipeline for every small table, buffer and set of rows on which the C *)
(* function reports an error: the caller gets every answer in order, or an   *)
(* exception, and an exception only if some row cannot be processed.         *)
EXTENDS Host
CONSTANTS ROWS, COLS, BUF, VALS
VARIABLES rows, fails, buf, vals, text, out, pc, row
vars == <<rows, fails, buf, vals, text, out, pc, row>>
Digits == {<<1>>, <<2, 1>>, <<1, 2, 2>>}
Tables == UNION {[1..n -> UNION {[1..m -> Digits] : m \in {k}}] : n \in 1..ROWS, k \in 1..COLS}
Init == /\ rows \in Tables /\ fails \in {{}} \cup {{k} : k \in 1..Len(rows)} /\ buf \in 2..BUF /\ vals \in 1..VALS
        /\ text = Text(rows) /\ out = <<>> /\ pc = "read" /\ row = 0
Read == /\ pc = "read" /\ text # <<>>
        /\ LET n == Until(text, 0, buf - 1)  s == SubSeq(text, 1, n)  rest == SubSeq(text, n + 1, Len(text))
               cut == n = buf - 1 /\ s[n] # NL /\ rest # <<>>
               cells == Cells(s, <<>>)
           IN IF cut \/ Len(cells) > vals \/ (row + 1) \in fails
              THEN pc' = "failed" /\ UNCHANGED <<text, out, row>>
              ELSE /\ text' = rest /\ out' = Append(out, [row |-> row, v |-> cells]) /\ row' = row + 1 /\ UNCHANGED pc
        /\ UNCHANGED <<rows, fails, buf, vals>>
End == pc = "read" /\ text = <<>> /\ pc' = "exit" /\ UNCHANGED <<rows, fails, buf, vals, text, out, row>>
Collect == pc \in {"exit", "failed"} /\ pc' = (IF pc = "failed" \/ Len(out) # Len(rows) THEN "raised" ELSE "returned")
           /\ UNCHANGED <<rows, fails, buf, vals, text, out, row>>
Next == Read \/ End \/ Collect
Fits == fails = {} /\ \A k \in 1..Len(rows) : Len(Line(rows[k])) < buf - 1 /\ Len(rows[k]) <= vals
Answers == [k \in 1..Len(rows) |-> [row |-> k - 1, v |-> rows[k]]]
Right == pc = "returned" => OnePerRow(out, Answers)
NoFalseError == pc = "raised" => MayRaise(Fits)
NoShort == pc = "returned" => fails = {}
=============================================================================
