------------------------------ MODULE NetTrace ------------------------------
(* Judges recorded calls of networks.  Session: layers, S, WS, BS.           *)
(*   predict  via, x, cls                                                    *)
(*   proba    via, x, ret, p (units of 1/Q)                                  *)
(*   activation act, x, y   one neuron                                       *)
(*   regress  via, x, ret, y (units of 1/Q), yi (the exact integers)         *)
EXTENDS Net, TraceLib
VARIABLES sid, l, st
FW(s, e) == Forward(s.layers, [v |-> e.x, S |-> s.S, tol |-> 0], s.WS, s.BS)
Judge(s, st0, e) ==
    CASE e.op = "predict" -> [st |-> st0, bad |-> Clause(ClassOK(s.layers, FW(s, e), e.cls), "class-" \o e.via)]
      [] e.op = "proba" ->
           LET fw == FW(s, e)  want == Proba(fw)  tol == TolQ(fw[2].tol, fw[2].S) + 2 IN
           [st |-> st0, bad |->
              Clause(e.ret = 0, "refused-" \o e.via)
              \cup (IF e.ret # 0 THEN {} ELSE Clause(Len(e.p) = Len(want) /\ \A k \in 1..Len(want) : e.p[k] \in (-Q)..(2 * Q) /\ Abs(e.p[k] - want[k]) <= tol, "probability-" \o e.via))]
      [] e.op = "regress" ->
           LET fw == FW(s, e)  y == fw[2] IN
           [st |-> st0, bad |->
              Clause(e.ret = 0, "refused-" \o e.via)
              \cup (IF e.ret # 0 THEN {} ELSE
                    Clause(Len(e.y) = Len(y.v) /\ \A k \in 1..Len(y.v) :
                        IF y.tol = 0 /\ y.S = 1 THEN e.yi[k] = y.v[k]
                        ELSE LET want == y.v[k] * (Q \div y.S) IN e.y[k] > -1000000000 /\ e.y[k] < 1000000000 /\ Abs(e.y[k] - want) <= TolQ(y.tol, y.S) + 2, "output-" \o e.via))]
      [] e.op = "activation" ->       \* one neuron with weight 1 and no bias: x in units of 1/Q, y of 2^-18
           [st |-> st0, bad |->
              Clause(e.y > -1000000000 /\ e.y < 1000000000 /\ Abs(e.y - (IF e.act = "tanh" THEN TanhF(e.x) ELSE LogisticF(e.x))) <= TolF, "activation-" \o e.act)]
      [] OTHER -> [st |-> st0, bad |-> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
