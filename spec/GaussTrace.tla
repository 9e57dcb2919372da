----------------------------- MODULE GaussTrace -----------------------------
(* Judges recorded runs.                                                     *)
(* Envelopes.  Session: P, m, offset (units: distances in 1/U).              *)
(*   envelope  x, dist, flag        the C function                           *)
(*   dist / score / label  via, x, v                                         *)
(* Mixtures.  Session: type, P, means, weights (integers) or offs (Bayesian: *)
(* what the source adds per component, units of 1/Q);                        *)
(* data are in units of 2^shift.                      *)
(*   mixture   via, x, ret, and any of lp, score, resp, cls                  *)
EXTENDS Gauss, TraceLib
VARIABLES sid, l, st
InRange(v) == \A c \in 1..Len(v) : AbsN(v[c]) < 500000000
Near(a, b, t) == a # NOINT /\ a # NAN /\ Abs(a - b) <= t
Offs(s) == IF s.bayesian THEN s.offs ELSE LET o == TLCEval(Offsets(s.type, s.P, s.means, s.weights))  n == Len(s.means[1]) IN
    \* data in units of 2^shift, so precision factors in units of 2^-shift
    TLCEval([c \in 1..Len(o) |-> o[c] - (n * s.shift * 45426) \div 16])
Judge(s, st0, e) ==
    CASE e.op = "envelope" ->
           LET d == Mahalanobis(s.P, s.m, e.x) IN
           [st |-> st0, bad |-> Clause(e.dist = d, "distance") \cup Clause((e.flag = 1) = Outlier(d, s.offset) /\ e.flag \in {0, 1}, "outlier")]
      [] e.op = "dist" -> [st |-> st0, bad |-> Clause(e.v = Mahalanobis(s.P, s.m, e.x), "distance-" \o e.via)]
      [] e.op = "score" -> [st |-> st0, bad |-> Clause(e.v = -Mahalanobis(s.P, s.m, e.x), "score-" \o e.via)]
      [] e.op = "label" -> [st |-> st0, bad |-> Clause(e.v = Label(Mahalanobis(s.P, s.m, e.x), s.offset), "label-" \o e.via)]
      [] e.op = "mixture" ->
           LET n == Len(e.x)  k == Len(s.means)
               offs == IF st0 = <<>> THEN Offs(s) ELSE st0
               lp == LogProbs(s.type, s.P, s.means, offs, e.x)
               tol == 16 + 3 * n
               top == MaxOf([c \in 1..k |-> AbsN(lp[c])], k) \div 100000
               r == Responsibilities(lp)
               rt == 8 + (tol + top) \div 2
           IN [st |-> offs, bad |->
                 Clause(e.ret = 0, "refused-" \o e.via)
                 \cup (IF e.ret # 0 THEN {} ELSE
                   (IF Has(e, "lp") THEN Clause(Len(e.lp) = k /\ \A c \in 1..k : Near(e.lp[c], lp[c], tol + top), "logprob-" \o e.via) ELSE {})
                   \cup (IF Has(e, "score") THEN Clause(Near(e.score, LogSumExp(lp), tol + top + 8), "score-" \o e.via) ELSE {})
                   \cup (IF Has(e, "resp") THEN Clause(Len(e.resp) = k /\ \A c \in 1..k : Near(e.resp[c], r[c], rt), "responsibility-" \o e.via)
                                                \cup Clause(InRange(e.resp) /\ Near(SumF(e.resp), Q, k \div 2 + 4), "sum-" \o e.via) ELSE {})
                   \cup (IF Has(e, "cls") THEN Clause(e.cls \in 0..(k - 1) /\ r[e.cls + 1] + rt + 8 >= MaxOf(r, k), "component-" \o e.via) ELSE {})
                   \* among themselves, the reported numbers agree more closely
                   \cup (IF Has(e, "score") /\ Has(e, "lp") /\ InRange(e.lp) THEN Clause(Near(e.score, LogSumExp(e.lp), 12), "own-score-" \o e.via) ELSE {})
                   \cup (IF Has(e, "resp") /\ Has(e, "lp") /\ InRange(e.lp) THEN LET ro == Responsibilities(e.lp) IN Clause(\A c \in 1..k : Near(e.resp[c], ro[c], 12), "own-responsibility-" \o e.via) ELSE {}))]
      [] OTHER -> [st |-> st0, bad |-> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = <<>>
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
