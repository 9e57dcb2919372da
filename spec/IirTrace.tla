------------------------------ MODULE IirTrace ------------------------------
(* Judges recorded filter calls.                                            *)
(*   new    f, sos, exact (TRUE: integers, judged exactly; FALSE: numbers    *)
(*          scaled, coefficients by CS, samples by XS, judged to tolerance   *)
(*          against the recorded outputs of every stage)                     *)
(*   feed   f, x, y            exact filter                                  *)
(*   step   f, xs, ys          one stage, real numbers: samples x[n], x[n-1],*)
(*          x[n-2] come from the specification's memory                      *)
(*   cascade f, y, chain       whole cascade against its stages in a chain   *)
(*   check  stages, states, nstates, coefs, ncoefs, ret                      *)
(*   array  f, x, y            the extension: a whole signal from zero state *)
EXTENDS Iir, TraceLib
VARIABLES sid, l, st
CS == 4096
Put(m, f, v) == [g \in DOMAIN m \cup {f} |-> IF g = f THEN v ELSE m[g]]
RECURSIVE Signal(_, _, _, _)
Signal(sos, mem, x, i) == IF i > Len(x) THEN <<>> ELSE LET r == Feed(sos, mem, x[i]) IN <<r[1]>> \o Signal(sos, r[2], x, i + 1)
Sum5(c) == Abs(c[1]) + Abs(c[2]) + Abs(c[3]) + Abs(c[4]) + Abs(c[5])
Judge(s, st0, e) ==
    CASE e.op = "new" -> [st |-> Put(st0, e.f, [sos |-> e.sos, mem |-> Fresh(e.sos)]), bad |-> Clause(e.ret = 0, "valid-filter-refused")]
      [] e.op = "feed" ->
           LET r == Feed(st0[e.f].sos, st0[e.f].mem, e.x)
           IN [st |-> Put(st0, e.f, [st0[e.f] EXCEPT !.mem = r[2]]), bad |-> Clause(e.y = r[1], "difference-equation")]
      [] e.op = "step" ->
           LET c == st0[e.f].sos[1]  m == st0[e.f].mem[1]
               want == Diff(c, m, e.x)                      \* scaled by CS more than the samples
               tol == Sum5(c) * 2 + 2 * CS
           IN [st |-> Put(st0, e.f, [st0[e.f] EXCEPT !.mem = <<Shift(m, e.x, e.y)>>]),
               bad |-> Clause(e.y # NAN /\ e.y # NOINT /\ Abs(e.y * CS - want) <= tol, "difference-equation")]
      [] e.op = "cascade" -> [st |-> st0, bad |-> Clause(e.y # NAN /\ e.y # NOINT /\ e.chain # NAN /\ e.chain # NOINT /\ Abs(e.y - e.chain) <= e.tol, "cascade-is-chain-of-stages")]
      [] e.op = "array" -> [st |-> st0, bad |-> Clause(Len(e.x) = Len(e.y) /\ e.y = Signal(e.sos, Fresh(e.sos), e.x, 1), "extension-signal")]
      [] e.op = "check" -> [st |-> st0, bad |-> Clause((e.ret = 0) = CheckOK(e.stages, e.states, e.nstates, e.coefs, e.ncoefs), "check-result")]
      [] e.op = "reject" -> [st |-> st0, bad |-> Clause(e.raised, "wrong-dimensions-accepted")]
      [] OTHER -> [st |-> st0, bad |-> {e.op}]
TraceInitState(s) == [f \in {} |-> 0]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = TraceInitState(Sessions[sid])
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
