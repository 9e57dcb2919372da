------------------------------ MODULE KnnTrace ------------------------------
(* Judges recorded calls on a nearest-neighbours model.  Every event holds  *)
(* the complete projected model after the call.                             *)
(*   init    nf, cap, k, n0 preset items                                    *)
(*   add     v, label, ret, n, items, labels                                *)
(*   predict v, d, ret, out, n, items, labels (out0: value before the call) *)
EXTENDS Knn, TraceLib
VARIABLES sid, l, st
NLABELS == 10
SameModel(m, e) == /\ e.n = Len(m.items)
                   /\ Len(e.labels) = e.n /\ Len(e.items) = e.n
                   /\ \A i \in 1..e.n : e.items[i] = m.items[i].v /\ e.labels[i] = m.items[i].label
JInit(e) == LET m == [nf |-> e.nf, cap |-> e.cap, k |-> e.k, items |-> [i \in 1..Len(e.items) |-> [v |-> e.items[i], label |-> e.labels[i]]]]
            IN [st |-> m, bad |-> {}]
JAdd(m, e) == LET m2 == AddItem(m, e.v, e.label)
              IN [st |-> m2,
                  bad |-> Clause((e.ret = 0) = CanAdd(m, e.v), "add-result")
                          \cup Clause(SameModel(m2, e), "stored-items")]
JPredict(s, m, e) ==
    LET ok == CanPredict(m, e.v, e.d)
        bad == {i \in 1..Len(m.items) : m.items[i].label \notin 0..(NLABELS - 1)}
        D == Distances(m, e.v)
    IN [st |-> m,
        bad |-> Clause(SameModel(m, e), "prediction-changes-model")
           \cup (IF ~ok THEN Clause(e.ret # 0, "accepts-wrong-lengths") \cup Clause(e.out = e.out0, "writes-output-on-error")
                 ELSE IF bad # {} /\ \E i \in bad : D[i] <= KthDist(D, m.k)
                 THEN (IF e.ret # 0 THEN Clause(e.out = e.out0, "writes-output-on-error")
                       ELSE \* one of the nearest is of a kind that has no counter: never counted as something else
                            Clause(e.out \in {m.items[i].label : i \in {j \in 1..Len(m.items) : D[j] <= KthDist(D, m.k)}}, "label-of-none"))
                 ELSE Clause(e.ret = 0, "refuses-valid-query")
                      \cup (IF e.ret = 0 /\ s.labels THEN Clause(e.out \in PredictSet(m.items, D, m.k, NLABELS), "label") ELSE {}))]
JCheck(m, e) == [st |-> m, bad |-> Clause((e.ret = 0) = (e.dl >= m.cap * m.nf /\ e.ll >= m.cap /\ e.xl >= m.cap), "check-result")]
\* the converted estimator as a whole
JWrapper(m, e) == [st |-> m, bad |-> Clause(e.out \in PredictSet(m.items, Distances(m, e.v), m.k, NLABELS), "wrapper-label")]
Judge(s, m, e) ==
    CASE e.op = "init" -> JInit(e)
      [] e.op = "add" -> JAdd(m, e)
      [] e.op = "predict" -> JPredict(s, m, e)
      [] e.op = "check" -> JCheck(m, e)
      [] e.op = "wrapper" -> JWrapper(m, e)
      [] OTHER -> [st |-> m, bad |-> {e.op}]
TraceInitState(s) == [nf |-> 0, cap |-> 0, k |-> 0, items |-> <<>>]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = TraceInitState(Sessions[sid])
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
