------------------------------ MODULE SortTrace ------------------------------
(* sort  keys0, keys, ids, touched <<lowest, highest position accessed>>     *)
EXTENDS Sort, TraceLib
VARIABLES sid, l, st
JSort(e) == LET n == Len(e.keys0) IN
    Clause(e.touched[1] >= 0 /\ e.touched[2] <= n - 1, "position-out-of-bounds")
    \cup Clause(Len(e.keys) = n /\ IsPermutation(e.ids, n), "items-lost-or-duplicated")
    \cup (IF Len(e.keys) = n /\ IsPermutation(e.ids, n) THEN Clause(Carried(e.keys0, e.keys, e.ids), "key-separated-from-item") ELSE {})
    \cup Clause(Ordered(e.keys), "not-ordered")
\* many items: keys 0..m-1 with the given counts, the result as runs of equal keys
RECURSIVE Present(_, _)
Present(counts, k) == IF k > Len(counts) THEN <<>> ELSE (IF counts[k] > 0 THEN << <<k - 1, counts[k]>> >> ELSE <<>>) \o Present(counts, k + 1)
JMany(e) ==
    Clause(e.touched[1] >= 0 /\ e.touched[2] <= e.n - 1, "position-out-of-bounds")
    \cup Clause(e.once, "items-lost-or-duplicated") \cup (IF e.once THEN Clause(e.carried, "key-separated-from-item") ELSE {})
    \cup Clause(e.runs = Present(e.counts, 1), "not-ordered")
Judge(s, s0, e) == [st |-> s0, bad |-> IF e.op = "sort" THEN JSort(e) ELSE IF e.op = "many" THEN JMany(e) ELSE {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
