------------------------------ MODULE ParetoTrace ------------------------------
(* front  rows <<cost, perf>>, higher, hasmin, min, kept (row numbers in the    *)
(*        order returned), contents, columns, table (unchanged flags)           *)
EXTENDS Pareto, TraceLib
VARIABLES sid, l, st
JFront(e) ==
    LET rows == [i \in DOMAIN e.rows |-> <<e.rows[i][1], IF e.higher THEN -e.rows[i][2] ELSE e.rows[i][2]>>]
        ok == [i \in DOMAIN rows |-> ~e.hasmin \/ (IF e.higher THEN e.rows[i][2] >= e.min ELSE e.rows[i][2] <= e.min)]
        kept == {e.kept[i] : i \in DOMAIN e.kept}
    IN Clause(kept \subseteq Efficient(rows), "dominated-row-returned")
       \cup Clause(\A i \in kept : i \in DOMAIN ok /\ ok[i], "below-minimum-performance")
       \cup Clause(\A i \in Efficient(rows) : ok[i] => \E j \in kept : rows[j] = rows[i], "efficient-row-missing")
       \cup Clause(Increasing(e.kept), "row-order") \cup Clause(e.contents, "row-contents") \cup Clause(e.columns, "columns-changed") \cup Clause(e.table, "callers-table-changed")
Judge(s, s0, e) == [st |-> s0, bad |-> IF e.op = "front" THEN JFront(e) ELSE {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
