------------------------------- MODULE Pareto_MC -------------------------------
(* The elimination procedure: every surviving point removes the points that    *)
(* are nowhere better than it; on all tables of up to MAXN rows.               *)
EXTENDS Pareto, TLC, Json
CONSTANTS MAXN, VALS, EMIT
VARIABLES rows, mask, i
vars == <<rows, mask, i>>
Init == /\ rows \in UNION {[1..n -> VALS \X VALS] : n \in 1..MAXN} /\ mask = DOMAIN rows /\ i = 1
Better(a, b) == a[1] < b[1] \/ a[2] < b[2]
Next == /\ i <= Len(rows) /\ i' = i + 1 /\ UNCHANGED rows
        /\ mask' = IF i \in mask THEN {j \in mask : j = i \/ Better(rows[j], rows[i])} ELSE mask
Done == i > Len(rows)
Exact == Done => FrontOf(rows, mask, [k \in DOMAIN rows |-> TRUE])
NeverEmpty == mask # {}
\* efficient values are never lost on the way
Kept == \A k \in Efficient(rows) : \E j \in mask : rows[j] = rows[k]
Emit == (EMIT /\ i = 1 /\ Len(rows) = MAXN) => PrintT("BEH " \o ToJson(rows))
=============================================================================
