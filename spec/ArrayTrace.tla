----------------------------- MODULE ArrayTrace -----------------------------
(* Judges recorded array calls; every event carries the complete contents of *)
(* all arrays of the session after the call.                                 *)
EXTENDS ArrayTable, TraceLib
VARIABLES sid, l, st
\* st = [A |-> <<arrays>>, fed |-> rows seen by the window array 1, V |-> <<vectors>>]
Same(a, p) == IF ~Live(a) THEN p.live = 0 ELSE p.live = 1 /\ p.cols = a.cols /\ p.rows = a.rows /\ p.vs = a.vs /\ p.t = a.t
AllSame(A, e) == \A i \in 1..Len(A) : Same(A[i], e.A[i])
Others(A, e, a) == \A i \in 1..Len(A) : i # a => Same(A[i], e.A[i])
Res(s0, A2, e, ok, name) == [st |-> [s0 EXCEPT !.A = A2],
    bad |-> Clause((e.ret = 0) = ok, name \o "-result") \cup Clause(AllSame(A2, e), IF ok THEN name \o "-contents" ELSE name \o "-error-changes-data")]
JInit(s0, e) ==
    LET ok == e.nd = 2 /\ CanInit(e.cols, e.rows, e.vs, e.len)
        A2 == IF ok THEN [s0.A EXCEPT ![e.a] = [cols |-> e.cols, rows |-> e.rows, vs |-> e.vs, t |-> e.pat]] ELSE s0.A
        r == Res(s0, A2, e, ok, "init")
        p == e.A[e.a]
        \* after a wrong answer the monitor goes on from what the code has
        seen == IF p.live = 0 THEN None ELSE [cols |-> p.cols, rows |-> p.rows, vs |-> p.vs, t |-> p.t]
    IN IF (e.ret = 0) = ok THEN r ELSE [r EXCEPT !.st = [s0 EXCEPT !.A[e.a] = seen]]
JPut(s0, e) ==
    LET off == Address(s0.A[e.a], e.col, e.row)
        A2 == [s0.A EXCEPT ![e.a] = Put(@, e.col, e.row, e.v)]
    IN [st |-> [s0 EXCEPT !.A = A2], bad |-> Clause(e.off = off, "address") \cup Clause(AllSame(A2, e), "put-contents")]
JSum(s0, e) ==
    LET ok == CanFill(s0.A[e.a]) IN
    [st |-> s0, bad |-> Clause((e.ret = 0) = ok, "sum-result") \cup Clause(AllSame(s0.A, e), "sum-changes-data")
                   \cup (IF ok THEN Clause(e.sum = SumRows(s0.A[e.a].t), "sum-value") ELSE Clause(e.sum = e.sum0, "sum-writes-on-error"))]
JPush(s0, e) ==      \* chunk array 2 was refilled with e.chunk; window is array 1
    LET o == [s0.A[2] EXCEPT !.rows = Len(e.chunk), !.t = e.chunk]
        fed2 == s0.fed \o e.chunk
        w2 == [s0.A[1] EXCEPT !.t = Last(fed2, s0.A[1].rows)]
    IN [st |-> [s0 EXCEPT !.A = <<w2, o>>, !.fed = fed2],
        bad |-> Clause(e.ret = 0 /\ e.ret2 = 0, "push-result") \cup Clause(Same(w2, e.A[1]), "window-newest-rows") \cup Clause(Same(o, e.A[2]), "chunk-changed")]
JWin(s0, e) ==       \* start of a streaming session: window contents as found
    LET w == [cols |-> e.cols, rows |-> e.rows, vs |-> e.vs, t |-> e.pat]
    IN [st |-> [s0 EXCEPT !.A = <<w, [cols |-> e.cols, rows |-> 0, vs |-> e.vs, t |-> <<>>]>>, !.fed = e.pat], bad |-> Clause(e.ret = 0, "window-init")]
\* vectors: sequences of integers; a view is <<vector, start, length>>
JVec(s0, e) ==
    LET loc == e.loc  src == e.src  n == e.n      \* destination = view of vector at e.start with length n
        ok == loc >= 0 /\ loc + Len(src) <= n
        v2 == IF ok THEN [i \in 1..Len(e.v0) |-> IF i > e.start + loc /\ i <= e.start + loc + Len(src) THEN src[i - e.start - loc] ELSE e.v0[i]] ELSE e.v0
    IN [st |-> s0, bad |-> Clause((e.ret = 0) = ok, "vector-result") \cup Clause(e.v1 = v2, "vector-contents") \cup Clause(e.src1 = src, "vector-source")]
JVFill(s0, e) == [st |-> s0, bad |-> Clause(e.ret = 0 /\ e.v1 = [i \in 1..Len(e.v0) |-> IF i > e.start /\ i <= e.start + e.n THEN e.val ELSE e.v0[i]], "vector-fill")]
Judge(s, s0, e) ==
    CASE e.op = "init" -> JInit(s0, e)
      [] e.op = "put" -> JPut(s0, e)
      [] e.op = "fill" -> Res(s0, [s0.A EXCEPT ![e.a] = Fill(@, e.v)], e, CanFill(s0.A[e.a]), "fill")
      [] e.op = "shift" -> Res(s0, [s0.A EXCEPT ![e.a] = Shift(@, e.s)], e, CanShift(s0.A[e.a], e.s), "shift")
      [] e.op = "copy" -> Res(s0, [s0.A EXCEPT ![e.a] = Copy(@, e.s, s0.A[e.b])], e, CanCopy(s0.A[e.a], e.s, s0.A[e.b]), "copy")
      [] e.op = "sum" -> JSum(s0, e)
      [] e.op = "window" -> JWin(s0, e)
      [] e.op = "push" -> JPush(s0, e)
      [] e.op = "vset" -> JVec(s0, e)
      [] e.op = "vfill" -> JVFill(s0, e)
      [] OTHER -> [st |-> s0, bad |-> {e.op}]
TraceInitState(s) == [A |-> <<None, None, None>>, fed |-> <<>>]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = TraceInitState(Sessions[sid])
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
