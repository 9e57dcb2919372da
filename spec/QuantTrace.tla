------------------------------ MODULE QuantTrace ------------------------------
(* Judges recorded quantisation.  Products p are integers of 1/2^24 units with *)
(* tolerance t (0 when the floating point product is exact).                   *)
(*  setup   hi, lo (output limits), u (units per step)                         *)
(*  fwd     items: sequence of [p, t, q, ok]; ok = the sticky bit is exact     *)
(*  Python: shape_ok, dtype_ok                                                 *)
EXTENDS Quant, TraceLib
VARIABLES sid, l, st
U24 == Pow2B(24)
RECURSIVE CountIf(_, _, _)
CountIf(items, P(_), i) == IF i > Len(items) THEN 0 ELSE (IF P(items[i]) THEN 1 ELSE 0) + CountIf(items, P, i + 1)
Values(e, s0) == \A i \in DOMAIN e.items : LET x == e.items[i] IN Admissible(x.p, x.t, U24, x.q, s0.lo, s0.hi)
Signs(e) == \A i \in DOMAIN e.items : LET x == e.items[i] IN x.q.m = <<>> \/ x.q.neg = x.p.neg \/ (x.p.m = <<>> /\ EqB(AbsB(x.q), FromInt(1)))   \* a product below the unit of the projection
\* recorded in order of increasing input value
MonotoneOk(e) == \A i \in 1..(Len(e.items) - 1) : LeB(e.items[i].q, e.items[i + 1].q)
JPy(s0, e) == Clause(e.shape_ok, "shape") \cup Clause(e.dtype_ok, "dtype") \cup Clause(Values(e, s0), "value")
              \cup Clause(Signs(e), "sign-changed") \cup Clause(MonotoneOk(e), "not-monotonic")
\* floating point targets: |q*u - p| <= t or saturated
JPyFloat(s0, e) == Clause(e.shape_ok, "shape") \cup Clause(e.dtype_ok, "dtype") \cup Clause(Signs(e), "sign-changed") \cup Clause(MonotoneOk(e), "not-monotonic")
    \cup Clause(\A i \in DOMAIN e.items : LET x == e.items[i] IN
          \/ NearB(x.q, x.p, x.t) \/ (EqB(x.q, s0.hi) /\ LeB(s0.hi, AddB(x.p, x.t))) \/ (EqB(x.q, s0.lo) /\ LeB(SubB(x.p, x.t), s0.lo)), "value")
    \cup Clause(\A i \in DOMAIN e.items : LeB(e.items[i].q, s0.hi) /\ LeB(s0.lo, e.items[i].q), "exceeds-limits")
JMax(s0, e) == Clause(e.refused \/ (EqB(e.q, IF e.neg THEN s0.lo ELSE s0.hi)), "maximum-not-mapped-to-output-maximum")
JBelow(s0, e) == Clause(IF e.neg THEN LtB(s0.lo, e.q) \/ EqB(s0.lo, Zero0) ELSE LtB(e.q, s0.hi), "less-than-maximum-mapped-to-output-maximum")
\* inverse: d = |inverse - input| * scale in 1/2^24 steps, only for inputs inside the limits
JInv(e) == Clause(e.shape_ok, "shape") \cup Clause(\A i \in DOMAIN e.items : IF e.items[i].at THEN LeB(e.items[i].d, e.items[i].t) ELSE LtB(e.items[i].d, AddB(U24, e.items[i].t)), "inverse-off-by-a-step")
(* ---- C code ---- *)
Over(x, s0, strict) == LET L == MulB(s0.hi, U24) IN IF strict THEN LtB(L, SubB(x.p, x.t)) \/ (x.t.m = <<>> /\ x.above /\ EqB(x.p, L)) ELSE LtB(L, AddB(x.p, x.t)) \/ (x.t.m = <<>> /\ x.above /\ EqB(x.p, L))
Under(x, s0, strict) == LET y == [x EXCEPT !.p = NegB(@)] IN Over(y, s0, strict)
JFwd(s0, e) ==
    IF e.n # e.outn THEN Clause(e.ret # 0, "accepts-wrong-length") \cup Clause(e.untouched, "writes-on-error")
    ELSE Clause(e.ret = 0, "refuses-valid-call") \cup Clause(Values(e, s0), "value") \cup Clause(Signs(e), "sign-changed")
         \cup (IF ~e.counted THEN {}
               ELSE Clause(e.over >= CountIf(e.items, LAMBDA x : Over(x, s0, TRUE), 1) /\ e.over <= CountIf(e.items, LAMBDA x : Over(x, s0, FALSE), 1), "overflow-count")
                    \cup Clause(e.under >= CountIf(e.items, LAMBDA x : Under(x, s0, TRUE), 1) /\ e.under <= CountIf(e.items, LAMBDA x : Under(x, s0, FALSE), 1), "underflow-count"))
         \cup Clause(e.same, "counting-changes-values")
\* a pattern repeated reps times, and the inverse of what was written
JLong(s0, e) ==
    Clause(e.ret = 0 /\ e.bret = 0, "refuses-valid-call") \cup Clause(Values(e, s0), "value") \cup Clause(Signs(e), "sign-changed")
    \cup Clause(e.periodic, "same-value-quantised-differently") \cup Clause(e.bperiodic, "same-value-restored-differently") \cup Clause(e.same, "counting-changes-values")
    \cup Clause(e.over >= e.reps * CountIf(e.items, LAMBDA x : Over(x, s0, TRUE), 1) /\ e.over <= e.reps * CountIf(e.items, LAMBDA x : Over(x, s0, FALSE), 1), "overflow-count")
    \cup Clause(e.under >= e.reps * CountIf(e.items, LAMBDA x : Under(x, s0, TRUE), 1) /\ e.under <= e.reps * CountIf(e.items, LAMBDA x : Under(x, s0, FALSE), 1), "underflow-count")
    \cup Clause(\A i \in DOMAIN e.bitems : NearB(e.bitems[i].p, e.bitems[i].q, e.bitems[i].t), "inverse")
JCInv(e) ==
    IF e.n # e.outn THEN Clause(e.ret # 0, "accepts-wrong-length") \cup Clause(e.untouched, "writes-on-error")
    ELSE Clause(e.ret = 0, "refuses-valid-call") \cup Clause(\A i \in DOMAIN e.items : NearB(e.items[i].p, e.items[i].q, e.items[i].t), "inverse")
Judge(s, s0, e) ==
    CASE e.op = "setup" -> [st |-> [hi |-> e.hi, lo |-> e.lo], bad |-> {}]
      [] e.op = "py" -> [st |-> s0, bad |-> JPy(s0, e)]
      [] e.op = "pyfloat" -> [st |-> s0, bad |-> JPyFloat(s0, e)]
      [] e.op = "max" -> [st |-> s0, bad |-> JMax(s0, e)]
      [] e.op = "below" -> [st |-> s0, bad |-> JBelow(s0, e)]
      [] e.op = "range" -> [st |-> s0, bad |-> Clause(~e.accepted, "limits-beyond-the-type-accepted")]
      [] e.op = "inv" -> [st |-> s0, bad |-> JInv(e)]
      [] e.op = "learned" -> [st |-> s0, bad |-> Clause(e.clipped <= e.allowed, "learned-scale-clips-too-much")]
      [] e.op = "fwd" -> [st |-> s0, bad |-> JFwd(s0, e)]
      [] e.op = "long" -> [st |-> s0, bad |-> JLong(s0, e)]
      [] e.op = "cinv" -> [st |-> s0, bad |-> JCInv(e)]
      [] OTHER -> [st |-> s0, bad |-> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = [hi |-> Zero0, lo |-> Zero0]
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
