---------------------------- MODULE ConvertTrace ----------------------------
(* Judges recorded conversions.                                              *)
(*   convert  fam, cfg, outcome, classes, floats, top                        *)
(*     outcome  "refused" (convert raised), "late" (the first use raised),   *)
(*              "predicted" or "crash"                                       *)
(*     classes  <<want, got, clear>> of rows; floats <<want, got>>           *)
(*     top      number of classes: what predict may return is below it       *)
EXTENDS Convert, TraceLib
VARIABLES sid, l, st
Judge(s, st0, e) ==
    IF e.op # "convert" THEN {e.op} ELSE
    LET c == e.cfg  t == Tol(e.fam, c) IN
    (IF e.outcome = "crash" THEN {"crash"} ELSE {})
    \cup Clause(Must(e.fam, c) => e.outcome = "predicted", "refused")
    \cup Clause(Never(e.fam, c) => e.outcome \in {"refused", "late"}, "accepted")
    \cup (IF e.outcome = "predicted" THEN
             Clause(\A i \in DOMAIN e.classes : e.classes[i][3] => e.classes[i][1] = e.classes[i][2], "unfaithful-class")
             \cup Clause(\A i \in DOMAIN e.classes : e.classes[i][2] \in e.low..(e.top - 1), "no-class")
             \cup Clause(\A i \in DOMAIN e.floats : Close(t, e.floats[i][1], e.floats[i][2]), "unfaithful-number") ELSE {})
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED <<sid, st>>
         /\ LET bad == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN IF bad = {} THEN TRUE
               ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(bad))
=============================================================================
