----------------------------- MODULE Builds_MC -----------------------------
(* Two builds of the same operations side by side: the plain one, and one    *)
(* that reports failed preconditions to a hook and writes log entries inside *)
(* loops.  An operation adds a vector to an accumulator of the model, after  *)
(* the precondition on its length; a late failure (postcondition) leaves it  *)
(* half done.  The instrumented build differs in its log only.               *)
EXTENDS Builds, TLC
CONSTANTS LEN, VALS, DEPTH
VARIABLES plain, debug, arg, n
vars == <<plain, debug, arg, n>>
Idle == [pc |-> "idle", i |-> 0, acc |-> 0, ret |-> 0, out |-> -7, log |-> <<>>]
Args == UNION {[1..k -> VALS] : k \in 0..(LEN + 1)}
Step(m, a, inst) ==
    LET Note(x) == IF inst THEN Append(m.log, x) ELSE m.log IN
    CASE m.pc = "start" -> IF Len(a) # LEN THEN [m EXCEPT !.pc = "idle", !.ret = 1, !.log = Note("error")] ELSE [m EXCEPT !.pc = "loop", !.i = 1, !.log = Note("begin")]
      [] m.pc = "loop" -> IF m.i > LEN THEN [m EXCEPT !.pc = "end"]
                          ELSE IF a[m.i] < 0 THEN [m EXCEPT !.pc = "idle", !.ret = 4, !.log = Note("error")]
                          ELSE [m EXCEPT !.acc = m.acc + a[m.i], !.i = m.i + 1, !.log = Note("item")]
      [] m.pc = "end" -> [m EXCEPT !.pc = "idle", !.ret = 0, !.out = m.acc, !.log = Note("end")]
Init == plain = Idle /\ debug = Idle /\ arg = <<>> /\ n = 0
Call == /\ plain.pc = "idle" /\ debug.pc = "idle" /\ n < DEPTH /\ n' = n + 1
        /\ \E a \in Args : arg' = a
        /\ plain' = [plain EXCEPT !.pc = "start"] /\ debug' = [debug EXCEPT !.pc = "start"]
RunPlain == plain.pc # "idle" /\ plain' = Step(plain, arg, FALSE) /\ UNCHANGED <<debug, arg, n>>
RunDebug == debug.pc # "idle" /\ debug' = Step(debug, arg, TRUE) /\ UNCHANGED <<plain, arg, n>>
Next == Call \/ RunPlain \/ RunDebug
Seen(m) == <<m.acc, m.ret, m.out>>
Unchanged == plain.pc = "idle" /\ debug.pc = "idle" => Same(<<Seen(plain), Seen(debug)>>)
PlainIsSilent == plain.log = <<>>
Named == \A a, b \in Codes : a # b => NameOf(a) # NameOf(b)
=============================================================================
