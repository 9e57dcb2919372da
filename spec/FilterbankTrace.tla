--------------------------- MODULE FilterbankTrace ---------------------------
(* Judges recorded applications of filter banks.  Matrix and input are given *)
(* by their non-zero entries: rows = list of [j, c], x = list of [j, v].      *)
(*   apply   via, rows, x, out (all integers: coefficients carry one scale)   *)
EXTENDS Filterbank, TraceLib
VARIABLES sid, l, st
X(x, j) == LET h == {k \in 1..Len(x) : x[k][1] = j} IN IF h = {} THEN 0 ELSE x[CHOOSE k \in h : TRUE][2]
RECURSIVE SparseDot(_, _, _)
SparseDot(row, x, k) == IF k > Len(row) THEN 0 ELSE row[k][2] * X(x, row[k][1]) + SparseDot(row, x, k + 1)
Judge(s, st0, e) ==
    CASE e.op = "apply" ->
           [st |-> st0, bad |->
              Clause(Len(e.out) = Len(e.rows), "number-of-outputs")
              \cup (IF Len(e.out) # Len(e.rows) THEN {} ELSE
                    Clause(\A r \in 1..Len(e.rows) : e.out[r] = SparseDot(e.rows[r], e.x, 1), "product-" \o e.via))]
      [] OTHER -> [st |-> st0, bad |-> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
