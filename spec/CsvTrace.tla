------------------------------ MODULE CsvTrace ------------------------------
(* Judges recorded writer and reader calls.  Events:                        *)
(*   file    text                         added to the stream from outside  *)
(*   newfile                              the stream starts empty again      *)
(*   wheader cols, ret, fault, added      bytes appended by the call        *)
(*   wdata   vals (numbers), wide, ret, fault, added                        *)
(*   open                                                                   *)
(*   rheader buflen, collen, ret, fault, n, names                           *)
(*   rdata   buflen, collen, ret, fault, vals (texts of the fields)         *)
EXTENDS Csv, TraceLib
VARIABLES sid, l, st
\* st = [text, n (writer columns), wb (stream has an unfinished row), pos, rn (reader columns, -1 = none)]
JWHeader(s0, e) ==
    IF e.fault THEN [st |-> [s0 EXCEPT !.text = @ \o e.added, !.n = -1], bad |-> Clause(e.ret # 0, "write-failure-unreported")]
    ELSE [st |-> [s0 EXCEPT !.text = @ \o e.added, !.n = Len(e.cols)],
          bad |-> Clause(e.ret = 0, "header-refused") \cup Clause(e.added = Row(e.cols), "header-text")]
JWData(s0, e) ==
    LET valid == Len(e.vals) = s0.n /\ ~e.wide
        s1 == [s0 EXCEPT !.text = @ \o e.added, !.wb = @ \/ (e.fault /\ valid)]
        line == SubSeq(e.added, 1, Len(e.added) - 1)
        wellformed == e.added # <<>> /\ e.added[Len(e.added)] = EOL /\ Find(line, EOL, 1) = 0
                      /\ LET f == Fields(line) IN Len(f) = s0.n /\ \A i \in DOMAIN f : IsNumber(f[i]) /\ Close(Number(f[i]), e.vals[i])
    IN [st |-> s1,
        bad |-> IF s0.n < 0 THEN {}
                ELSE IF ~valid THEN Clause(e.ret # 0, "invalid-row-accepted") \cup Clause(e.added = <<>>, "rejected-row-leaves-bytes")
                ELSE IF e.fault THEN Clause(e.ret # 0, "write-failure-unreported")
                ELSE Clause(e.ret = 0, "row-refused") \cup Clause(wellformed, "row-text")]
JRHeader(s0, e) ==
    LET names == Fields(LineAt(s0.text, 1))
        ok == ~AtEnd(s0.text, 1) /\ Terminated(s0.text, 1) /\ Len(LineAt(s0.text, 1)) + 1 <= e.buflen /\ Len(names) <= e.collen
    IN IF e.fault \/ ~ok THEN [st |-> [s0 EXCEPT !.rn = -1], bad |-> Clause(e.ret # 0, IF e.fault THEN "read-failure-unreported" ELSE "bad-header-accepted")]
       ELSE [st |-> [s0 EXCEPT !.rn = Len(names), !.pos = NextLine(s0.text, 1)],
             bad |-> Clause(e.ret = 0, "header-unread") \cup (IF e.ret = 0 THEN Clause(e.n = Len(names) /\ e.names = names, "header-names") ELSE {})]
JRData(s0, e) ==
    LET end == AtEnd(s0.text, s0.pos)
        ok == ~end /\ Complete(s0.text, s0.pos, s0.rn, e.buflen) /\ e.collen >= s0.rn
        row == Fields(LineAt(s0.text, s0.pos))
        empty == ~end /\ LineAt(s0.text, s0.pos) = <<>>
        \* an unterminated last line with the right number of fields may be delivered or refused
        lastline == ~end /\ ~Terminated(s0.text, s0.pos) /\ Len(row) = s0.rn /\ e.collen >= s0.rn /\ Len(LineAt(s0.text, s0.pos)) <= e.buflen
        advanced == [s0 EXCEPT !.pos = NextLine(s0.text, s0.pos)]
    IN IF e.fault THEN [st |-> s0, bad |-> Clause(e.ret < 0, "read-failure-unreported")]
       ELSE IF e.collen < s0.rn THEN [st |-> s0, bad |-> Clause(e.ret < 0, "too-few-columns-accepted")]
       ELSE IF end THEN [st |-> s0, bad |-> Clause(e.ret = 0 \/ (e.buflen = 0 /\ e.ret < 0), "end-of-data")]
       ELSE IF empty THEN [st |-> IF e.ret > 0 THEN advanced ELSE s0, bad |-> Clause(e.ret <= 0 \/ e.ret = s0.rn, "wrong-column-count")]
       ELSE IF ok THEN [st |-> advanced,
                   bad |-> Clause(e.ret = s0.rn, "row-lost") \cup (IF e.ret = s0.rn THEN Clause(e.vals = row, "row-values") ELSE {})]
       ELSE IF lastline THEN [st |-> IF e.ret > 0 THEN advanced ELSE s0, bad |-> Clause(e.ret < 0 \/ (e.ret = s0.rn /\ e.vals = row), "unterminated-row")]
       ELSE [st |-> s0, bad |-> Clause(e.ret < 0, "malformed-row-accepted")]
Judge(s, s0, e) ==
    CASE e.op = "file" -> [st |-> [s0 EXCEPT !.text = @ \o e.text], bad |-> {}]
      [] e.op = "newfile" -> [st |-> [s0 EXCEPT !.text = <<>>, !.n = -1], bad |-> {}]
      [] e.op = "wheader" -> JWHeader(s0, e)
      [] e.op = "wdata" -> JWData(s0, e)
      [] e.op = "open" -> [st |-> [s0 EXCEPT !.pos = 1, !.rn = -1], bad |-> {}]
      [] e.op = "rheader" -> JRHeader(s0, e)
      [] e.op = "rdata" -> IF s0.rn < 0 THEN [st |-> s0, bad |-> {}] ELSE JRData(s0, e)
      [] OTHER -> [st |-> s0, bad |-> {e.op}]
TraceInitState(s) == [text |-> <<>>, n |-> 0, wb |-> FALSE, pos |-> 1, rn |-> -1]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = TraceInitState(Sessions[sid])
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
