---------------------------- MODULE SessionTrace ----------------------------
(* Judges recorded sessions.  Session: ref[source][revision] = what a model  *)
(* of it answers on its own (predict, proba, save), looks[source][revision] =  *)
(* what the source looks like.                                               *)
(*   convert m, s / refit s / chdir / predict m, res / proba m, res / save m, res *)
(* x: the rows that are predicted, as they look before and after             *)
(* every event has now: what all sources look like after it                  *)
EXTENDS Session, TraceLib
VARIABLES sid, l, st
Start(s) == [rev |-> [x \in DOMAIN s.ref |-> 1], mod |-> <<>>]
Judge(s, st0, e) ==
    LET st1 == IF e.op = "convert" THEN Convert(st0, e.m, e.s) ELSE IF e.op = "refit" THEN Refit(st0, e.s) ELSE st0
    IN [st |-> st1, bad |->
          (IF e.op \notin {"convert", "refit", "chdir", "predict", "proba", "save"} THEN {e.op}
           ELSE (IF ~Has(e, "now") THEN {} ELSE Clause(\A x \in DOMAIN s.ref : e.now[x] = s.looks[x][st1.rev[x]], "source-changed-by-" \o e.op))
             \cup Clause(Has(e, "x") => e.x = s.x, "rows-changed-by-" \o e.op)
             \cup (IF e.op \in {"predict", "proba", "save"}
                   THEN LET a == Answers(st0, e.m) IN Clause(e.res = s.ref[a.s][a.r][e.op], e.op) ELSE {}))]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = Start(Sessions[sid])
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
