-------------------------------- MODULE Pareto --------------------------------
(* Result tables: rows <<cost, score>>, both "smaller is better" after the     *)
(* direction of the performance metric was taken into account.                 *)
EXTENDS Integers, Sequences, FiniteSets
Dominates(a, b) == a[1] <= b[1] /\ a[2] <= b[2] /\ (a[1] < b[1] \/ a[2] < b[2])
Efficient(rows) == {i \in DOMAIN rows : \A j \in DOMAIN rows : ~Dominates(rows[j], rows[i])}
\* kept: set of row numbers.  ok(i): row meets the minimum performance
FrontOf(rows, kept, ok) ==
    /\ kept \subseteq {i \in Efficient(rows) : ok[i]}
    /\ \A i \in Efficient(rows) : ok[i] => \E j \in kept : rows[j] = rows[i]
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
=============================================================================
