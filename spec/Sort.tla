-------------------------------- MODULE Sort --------------------------------
(* Sorting in place with LESS and SWAP on positions 0..N-1.                 *)
(* What users get: an ordered permutation that keeps each item's identity.  *)
EXTENDS Integers, Sequences, FiniteSets
Ordered(keys) == \A i \in 1..(Len(keys) - 1) : keys[i] <= keys[i + 1]
\* ids[i] is the original position (1-based) of the item now at i
IsPermutation(ids, n) == Len(ids) = n /\ {ids[i] : i \in 1..Len(ids)} = 1..n
Carried(keys0, keys, ids) == \A i \in 1..Len(keys) : ids[i] \in 1..Len(keys0) /\ keys[i] = keys0[ids[i]]

(* The algorithm: quicksort with median of three and insertion sort of short *)
(* subfiles, an explicit stack of pending subfiles (the larger one waits).   *)
\* a is a function on 0..n-1 ; a state of the algorithm is [a, oob]
Swap(s, i, j) == [s EXCEPT !.a = [s.a EXCEPT ![i] = s.a[j], ![j] = s.a[i]]]
Less(s, i, j) == s.a[i] < s.a[j]
Sort3(s, x, y, z) ==
    IF Less(s, y, x) THEN IF Less(s, z, y) THEN Swap(s, x, z)
                          ELSE LET t == Swap(s, x, y) IN IF Less(t, z, y) THEN Swap(t, y, z) ELSE t
    ELSE IF Less(s, z, y) THEN LET t == Swap(s, y, z) IN IF Less(t, y, x) THEN Swap(t, x, y) ELSE t
    ELSE s
\* scans; leaving 0..n-1 is recorded
RECURSIVE Up(_, _, _)
Up(s, i, l) == IF i \notin DOMAIN s.a THEN i ELSE IF Less(s, i, l) THEN Up(s, i + 1, l) ELSE i
RECURSIVE Down(_, _, _)
Down(s, j, l) == IF j \notin DOMAIN s.a THEN j ELSE IF Less(s, l, j) THEN Down(s, j - 1, l) ELSE j
RECURSIVE Scan(_, _, _, _)
Scan(s, l, i0, j0) ==
    LET i == Up(s, i0 + 1, l)  j == Down(s, j0 - 1, l) IN
    IF i \notin DOMAIN s.a \/ j \notin DOMAIN s.a THEN [s |-> [s EXCEPT !.oob = TRUE], j |-> l]
    ELSE IF i >= j THEN [s |-> s, j |-> j]
    ELSE Scan(Swap(s, i, j), l, i, j)
\* result [s, lo: last of the left part, hi: first of the right part]
Partition(s0, l, r) ==
    LET m == l + (r - l) \div 2
        s1 == Swap(Sort3(s0, l + 1, m, r), l, m)
        p == Scan(s1, l, l + 1, r)
    IN [s |-> Swap(p.s, l, p.j), hi |-> p.j + 1, lo |-> p.j - 1]
RECURSIVE SiftDown(_, _, _)
SiftDown(s, j, l) == IF j > l /\ Less(s, j, j - 1) THEN SiftDown(Swap(s, j, j - 1), j - 1, l) ELSE s
RECURSIVE Insertion(_, _, _, _)
Insertion(s, l, r, i) == IF i > r THEN s ELSE Insertion(SiftDown(s, i, l), l, r, i + 1)
=============================================================================
