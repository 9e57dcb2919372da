------------------------------ MODULE Array_MC ------------------------------
(* Design check of the table operations, and generator of histories.       *)
EXTENDS ArrayTable, TLC, Json
CONSTANTS DEPTH, EMIT, MAXD, POKES
VARIABLES A, h, last
vars == <<A, h, last>>
Tok(n, cols, rows) == [r \in 1..rows |-> [c \in 1..cols |-> n * 100 + r * 10 + c]]
New(n, cols, rows, vs) == [cols |-> cols, rows |-> rows, vs |-> vs, t |-> Tok(n, cols, rows)]
Init == A = <<None, None>> /\ h = <<>> /\ last = [op |-> "start"]
Op(o) == h' = Append(h, o) /\ last' = o
Create == \E a \in {1, 2}, cols \in 0..MAXD, rows \in -1..MAXD, vs \in {1, 2}, short \in {0, 1} :
    LET len == IF cols * rows * vs - short < 0 THEN 0 ELSE cols * rows * vs - short IN
    /\ ~Live(A[a]) /\ (short = 1 => cols = 1 /\ rows = 1) /\ (rows = -1 \/ cols = 0 => vs = 1)
    /\ A' = [A EXCEPT ![a] = IF CanInit(cols, rows, vs, len) THEN New(a, cols, rows, vs) ELSE @]
    /\ Op([op |-> "init", a |-> a, cols |-> cols, rows |-> rows, vs |-> vs, len |-> len])
DoShift == \E a \in {1, 2}, s \in -(MAXD + 1)..1 : Live(A[a]) /\ A' = [A EXCEPT ![a] = Shift(@, s)] /\ Op([op |-> "shift", a |-> a, s |-> s])
DoCopy == \E a \in {1, 2}, s \in -1..MAXD : Live(A[a]) /\ Live(A[3 - a]) /\ A' = [A EXCEPT ![a] = Copy(@, s, A[3 - a])] /\ Op([op |-> "copy", a |-> a, s |-> s, b |-> 3 - a])
DoFill == \E a \in {1, 2} : Live(A[a]) /\ A' = [A EXCEPT ![a] = Fill(@, 7)] /\ Op([op |-> "fill", a |-> a, v |-> 7])
DoPut == \E a \in {1, 2}, c \in {p - 1 : p \in POKES}, r \in {p - 1 : p \in POKES} : Live(A[a]) /\ A' = [A EXCEPT ![a] = Put(@, c, r, 9)] /\ Op([op |-> "put", a |-> a, col |-> c, row |-> r, v |-> 9])
DoSum == \E a \in {1, 2} : Live(A[a]) /\ UNCHANGED A /\ Op([op |-> "sum", a |-> a])
Next == Len(h) < DEPTH /\ (Create \/ DoShift \/ DoCopy \/ DoFill \/ DoPut \/ DoSum)
Emit == (EMIT /\ Len(h) = DEPTH) => PrintT("BEH " \o ToJson(h))
View == <<A, Len(h)>>
Shape == \A a \in {1, 2} : Len(A[a].t) = A[a].rows /\ \A r \in 1..A[a].rows : Len(A[a].t[r]) = A[a].cols
\* only the addressed array changes; every cell of the result is one of the old cells of its place or of the source's place
Frame == [][\A a \in {1, 2} : last'.op \notin {"start"} /\ last'.a # a => A'[a] = A[a]]_vars
ShiftRule == [][ (last'.op = "shift" /\ last' # last) =>
    LET a == last'.a  s == last'.s IN
       IF s <= 0 /\ -s <= A[a].rows
       THEN /\ \A r \in 1..(A[a].rows + s) : A'[a].t[r] = A[a].t[r - s]
            /\ \A r \in (A[a].rows + s + 1)..A[a].rows : A'[a].t[r] = A[a].t[r]
       ELSE A'[a] = A[a] ]_vars
CopyRule == [][ (last'.op = "copy" /\ last' # last) =>
    LET a == last'.a  o == A[last'.b]  s == last'.s IN
       IF s >= 0 /\ s + o.rows <= A[a].rows /\ o.cols = A[a].cols /\ o.vs = A[a].vs
       THEN /\ \A r \in 1..o.rows : A'[a].t[s + r] = o.t[r]
            /\ \A r \in 1..A[a].rows : (r <= s \/ r > s + o.rows) => A'[a].t[r] = A[a].t[r]
       ELSE A'[a] = A[a] ]_vars
=============================================================================
