----------------------------- MODULE HostTrace -----------------------------
(* Judges recorded evaluations.                                              *)
(*   eval  via, n, fits, raised, res, want: what was returned for each row   *)
(*         and what the C code answered for that row (same notation)         *)
(*         probe: rows, cols and some values as the C function saw them, next *)
(*         to the table (units 2^-64)                                        *)
EXTENDS Host, TraceLib
VARIABLES sid, l, st
Judge(s, st0, e) ==
    CASE e.op = "eval" ->
           [st |-> st0, bad |->
              IF e.raised THEN Clause(MayRaise(e.fits), "refused-" \o e.via)
              ELSE Clause(e.fits, "no-exception-" \o e.via)
                   \cup (IF ~e.fits THEN {} ELSE
                         Clause(Len(e.res) = e.n, "count-" \o e.via)
                         \cup Clause(OnePerRow(e.res, e.want), "answers-" \o e.via)
                         \cup (IF ~Has(e, "lens") THEN {} ELSE
                               Clause(Len(e.lens) = e.n /\ \A k \in 1..Len(e.lens) : e.lens[k] = e.cols, "rows-" \o e.via)
                               \cup Clause(\A k \in 1..Len(e.saw) : Intact(e.saw[k], e.x[k]), "values-" \o e.via)))]
      [] OTHER -> [st |-> st0, bad |-> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
