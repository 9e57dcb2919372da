------------------------------ MODULE LogTrace ------------------------------
(* entry   name, items, text        what one entry printed                   *)
(* silent  text                     what came out with logging disabled      *)
(* run     f, ret, hooks, acts, places (hook positions were right), hooked   *)
(*         (builds in which a hook is installed)                              *)
(* program f, fatal, logged, status, after (it went on), lines (error lines, *)
(*         each with the codes it names)                                      *)
(* lib     what, lines: [name, kv] of every line printed during a library    *)
(*         operation, with the facts of that operation                        *)
EXTENDS Log, TraceLib
VARIABLES sid, l, st
JEntry(e) == Clause(e.text = Line(e), "line")
JRun(e) == LET r == Run(e.f) IN Clause(e.ret = r.ret, "returned") \cup Clause(e.acts = r.acts, "effects")
    \cup Clause(e.hooks = (IF e.hooked THEN r.hooks ELSE <<>>), "hook") \cup Clause(e.places, "hook-place")
JProgram(e) == LET r == Run(e.f) IN
    (IF e.fatal /\ r.ret # 0 THEN Clause(e.status # 0, "fatal-error-status") \cup Clause(~e.after, "went-on-after-fatal-error")
     ELSE Clause(e.status = 0 /\ e.after, "ended-early"))
    \cup Clause(Len(e.lines) = (IF e.logged THEN Len(r.hooks) ELSE 0), "error-lines")
    \cup Clause(\A k \in DOMAIN e.lines : \E j \in DOMAIN e.lines[k] : e.lines[k][j] = r.ret, "error-name")
\* values of a key in a line
Val(line, key) == LET ks == {k \in DOMAIN line.kv : line.kv[k].key = key} IN IF ks = {} THEN NOINT ELSE line.kv[CHOOSE k \in ks : TRUE].i
Named(e, n) == SelectSeq(e.lines, LAMBDA x : x.name = n)
WellFormed(e) == \A k \in DOMAIN e.lines : e.lines[k].name # "" /\ e.lines[k].ended /\ \A j \in DOMAIN e.lines[k].kv : e.lines[k].kv[j].pair
JLib(e) == Clause(WellFormed(e), "not-logfmt") \cup
    CASE e.what = "tree" ->
           LET b == Named(e, "eml-trees-predict-end") IN
           Clause(Len(b) = 1 /\ Val(b[1], "class") = e.ret /\ Val(b[1], "trees") = e.trees, "prediction-line")
      [] e.what = "add" ->
           LET b == Named(e, "eml_neighbors_add_item") IN
           IF e.ret # 0 THEN Clause(b = <<>>, "line-for-a-refused-item")
           ELSE Clause(Len(b) = 1 /\ Val(b[1], "index") = e.n /\ Val(b[1], "label") = e.label, "item-line")
      [] e.what = "predict" ->
           LET d == Named(e, "eml_neighbors_infer_iter") k == Named(e, "eml_neighbors_find_nearest_k_iter") v == Named(e, "eml_neighbors_find_nearest_votes_iter") IN
           Clause(Len(d) = Len(e.labels) /\ \A i \in DOMAIN d : Val(d[i], "index") = i - 1 /\ Val(d[i], "label") = e.labels[i] /\ Val(d[i], "distance") = e.dists[i], "distance-lines")
           \cup Clause(Len(k) = e.k /\ \A i \in DOMAIN k : \E j \in DOMAIN e.labels : Val(k[i], "distance") = e.dists[j] /\ Val(k[i], "label") = e.labels[j], "neighbour-lines")
           \cup Clause(\A i, j \in DOMAIN k : i < j => Val(k[i], "distance") <= Val(k[j], "distance"), "neighbour-order")
           \cup Clause(\E i \in DOMAIN v : Val(v[i], "index") = e.answer /\ \A j \in DOMAIN v : Val(v[j], "votes") <= Val(v[i], "votes"), "vote-lines")
Judge(s, s0, e) == [st |-> s0, bad |-> CASE e.op = "entry" -> JEntry(e) [] e.op = "silent" -> Clause(e.text = "", "not-silent")
    [] e.op = "run" -> JRun(e) [] e.op = "program" -> JProgram(e) [] e.op = "lib" -> JLib(e) [] OTHER -> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
