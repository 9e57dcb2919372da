---------------------------- MODULE BuildsTrace ----------------------------
(*   results   vals: what one operation gave, for each build                 *)
(*   strings   codes (ints), has (which of the six names the letters of  *)
(*             the description contain), valid (what eml_error_valid says)                      *)
(*   compiles  kind, unit, target, ok                                        *)
(*   fact      a constant of the library as the target's compiler works it    *)
(*             out: verdict holds, fails, or undecided                       *)
(*   enum      names, values of the enumeration                              *)
EXTENDS Builds, TraceLib
VARIABLES sid, l, st
Judge(s, st0, e) ==
    CASE e.op = "results" -> [st |-> st0, bad |-> UNION {Clause(e.vals[k] = e.vals[1], s.builds[k]) : k \in 1..Len(e.vals)}]
      [] e.op = "strings" ->
           [st |-> st0, bad |->
              UNION {IF e.codes[k] \in Codes THEN Clause(\A c \in Codes \ {0} : (c = e.codes[k]) <=> (NameOf(c) \in {e.has[k][j] : j \in 1..Len(e.has[k])}), "name") \cup Clause(e.codes[k] # 0 \/ e.has[k] = <<"ok">>, "name-ok") \cup Clause(e.valid[k], "valid")
                     ELSE Clause(~e.valid[k], "invalid-code-valid") \cup Clause(\A j \in 1..Len(e.has[k]) : e.has[k][j] = "ok", "invalid-code-named") : k \in 1..Len(e.codes)}
              \cup Clause(Codes \subseteq {e.codes[k] : k \in 1..Len(e.codes)}, "missing")]
      [] e.op = "enum" -> [st |-> st0, bad |-> UNION {Clause(e.values[k] \in Codes /\ NameOf(e.values[k]) = e.names[k], "enum") : k \in 1..Len(e.names)}]
      [] e.op = "compiles" -> [st |-> st0, bad |-> Clause(Supported(e.kind, e.unit, e.target) => e.ok, e.target)]
      [] e.op = "fact" -> [st |-> st0, bad |-> Clause(e.verdict # "fails", "value")]
      [] OTHER -> [st |-> st0, bad |-> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
