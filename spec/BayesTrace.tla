----------------------------- MODULE BayesTrace -----------------------------
(* Session: M, S (means, deviations per class and feature, q units), P (the  *)
(* priors, 2^-24 units), or                                                  *)
(* unrepresentable = TRUE when the model does not fit the 16.16 format.      *)
(*   predict  via, x, cls (lists)                                            *)
(*   refused  by the conversion                                              *)
EXTENDS Bayes, TraceLib
VARIABLES sid, l, st
Judge(s, st0, e) ==
    CASE e.op = "predict" ->
           [st |-> st0, bad |-> IF s.unfit THEN {"accepted"} ELSE
              LET cs == Costs(e.x, s.M, s.S, s.P) IN
              UNION {Clause(Allowed(cs, e.cls[k]), "class-" \o e.via[k])
                     \cup (IF e.cls[k] \in 0..(Len(s.M) - 1) THEN Clause(LowestOfEqual(s.M, s.S, s.P, e.cls[k]), "tie-" \o e.via[k]) ELSE {}) : k \in 1..Len(e.cls)}]
      [] e.op = "refused" -> [st |-> st0, bad |-> Clause(s.unfit, "refused")]
      [] OTHER -> [st |-> st0, bad |-> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
