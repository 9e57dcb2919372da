---------------------------- MODULE CostTrace ----------------------------
(* Judges recorded cost figures.  Session: kind hard|soft|reg, forest, nc, *)
(* lb (leaf bits of the conversion).  Events                               *)
(*   table   nodes, trees, leaves   read from the compiled model; leaves   *)
(*           is the sequence of stored leaves                              *)
(*   metric  which, who, v [, ns, ls, X]                                   *)
EXTENDS Cost, TraceLib
VARIABLES sid, l, st
\* how a leaf of the source is stored; soft voting rows depend on rounding: there the stored table decides
Key(s, v) == IF s.kind = "hard" THEN ArgMax(v) ELSE v[1]
Leaves(s, st0) == IF s.kind = "soft" THEN st0.leaves ELSE Cardinality(LeafKeys(s.forest, LAMBDA v : Key(s, v)))
LeafBytes(s) == CASE s.kind = "hard" -> {0, 1} [] s.kind = "soft" -> {s.nc} [] s.kind = "reg" -> {4}
Metric(s, st0, e) ==
    CASE e.which = "nodes"  -> e.v = NodeCount(s.forest)
      [] e.which = "leaves" -> e.v = Leaves(s, st0)
      [] e.which = "bytes"  -> LET ls == IF e.ls = -1 THEN LeafBytes(s) ELSE {e.ls}
                                   ns == IF e.ns = -1 THEN 8 ELSE e.ns
                               IN \E b \in ls : e.v = NodeCount(s.forest) * ns + Leaves(s, st0) * b
      [] e.which = "count"  -> e.v = Len(s.forest)
      \* scaled by a million
      [] e.which = "depth"  -> Abs(e.v * Len(s.forest) - 10000 * DepthSum(s.forest)) <= 2 * Len(s.forest)
      [] e.which = "diff"   -> e.v = DepthDiff(s.forest)
      \* total over the rows, scaled by a thousand
      [] e.which = "compute" -> Abs(e.v - 1000 * VisitedAll(s.forest, e.X, e.N)) <= 2
Distinct(ls) == \A i, j \in DOMAIN ls : i < j => ls[i] # ls[j]
Judge(s, st0, e) ==
    CASE e.op = "table" ->
           [st |-> [leaves |-> Len(e.leaves)],
            bad |-> Clause(e.nodes = NodeCount(s.forest), "compiled-nodes") \cup Clause(e.trees = Len(s.forest), "compiled-trees")
                    \cup Clause(Distinct(e.leaves), "leaves-stored-once")
                    \cup Clause(s.kind = "soft" \/ Len(e.leaves) = Leaves(s, st0), "compiled-leaves")]
      [] e.op = "metric" -> [st |-> st0, bad |-> Clause(Metric(s, st0, e), e.which)]
      [] OTHER -> [st |-> st0, bad |-> {e.op}]
TraceInitState(s) == [leaves |-> -1]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = TraceInitState(Sessions[sid])
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
