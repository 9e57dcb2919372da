----------------------------- MODULE CallsTrace -----------------------------
(* Judges recorded calls.  Session: m (kind, nf, no, cap, k, items).         *)
(*   call fn, n, on, part, ret, kept, res [, clean: what the same call       *)
(*   answers in the history without the wrong calls] [, items]               *)
EXTENDS Calls, TraceLib
VARIABLES sid, l, st
Start(s) == s.m.items
Judge(s, items, e) ==
    IF e.op # "call" THEN [st |-> items, bad |-> {e.op}]
    ELSE LET wrong == Wrong(e.fn, s.m, e, items)
             st1 == IF e.fn = "knn_add" /\ ~wrong THEN items + 1 ELSE items
         IN [st |-> st1, bad |->
              (IF wrong THEN Clause(Reports(e.fn, e.ret), "not-reported") \cup Clause(e.kept, "output-written")
               ELSE Clause(Succeeds(e.fn, e.ret), "refused") \cup Clause(Has(e, "clean") /\ e.res = e.clean, "influenced"))
              \cup (IF Has(e, "items") THEN Clause(e.items = st1, "items") ELSE {})]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = Start(Sessions[sid])
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
