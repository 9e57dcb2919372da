------------------------------ MODULE Calls_MC ------------------------------
(* How a function keeps the promise: everything that can be told without     *)
(* computing is told first, what is computed goes to working memory, and     *)
(* only a finished result goes to the caller.  A part that is missed in the  *)
(* middle leaves working memory behind, which the next call must not see.    *)
EXTENDS Calls, Json
CONSTANTS ROWS, STEPS, DEPTH, EMIT, EAGER
VARIABLES call, at, work, out, status, hist
vars == <<call, at, work, out, status, hist>>
M == [nf |-> 2, no |-> 2, kind |-> "classifier", cap |-> 9, k |-> 1]
F(row, step) == row * 10 + step
Kinds == {[k |-> "good", n |-> 2, on |-> 2, part |-> "none"], [k |-> "len", n |-> 1, on |-> 2, part |-> "none"], [k |-> "len", n |-> 3, on |-> 2, part |-> "none"],
          [k |-> "out", n |-> 2, on |-> 1, part |-> "none"], [k |-> "part", n |-> 2, on |-> 2, part |-> "early"], [k |-> "part", n |-> 2, on |-> 2, part |-> "late"]}
Nothing == [fn |-> "none"]
Init == call = Nothing /\ at = 0 /\ work = [i \in 1..STEPS |-> 0] /\ out = [own |-> TRUE, v |-> 0] /\ status = "none" /\ hist = <<>>
Begin == /\ call = Nothing /\ Len(hist) < DEPTH
         /\ \E c \in Kinds, row \in ROWS, fn \in {"net_proba", "net_predict"} :
              /\ call' = [fn |-> fn, row |-> row, c |-> c] /\ hist' = Append(hist, [fn |-> fn, row |-> row, k |-> c.k, n |-> c.n, part |-> c.part])
         /\ at' = 0 /\ out' = [own |-> TRUE, v |-> 0] /\ status' = "running" /\ UNCHANGED work
Refuse == /\ status = "running" /\ at = 0 /\ call.c.part # "late" /\ Wrong(call.fn, M, call.c, 1)
          /\ status' = "error" /\ call' = Nothing /\ UNCHANGED <<at, work, out, hist>>
Compute == /\ status = "running" /\ (at > 0 \/ call.c.part = "late" \/ ~Wrong(call.fn, M, call.c, 1)) /\ at < STEPS
           /\ IF at = STEPS - 1 /\ call.c.part = "late"
              THEN status' = "error" /\ call' = Nothing /\ UNCHANGED <<at, work>>
              ELSE at' = at + 1 /\ work' = [work EXCEPT ![at + 1] = F(call.row, at + 1) ] /\ UNCHANGED <<status, call>>
           /\ out' = IF EAGER /\ at = 0 THEN [own |-> FALSE, v |-> work'[1]] ELSE out
           /\ UNCHANGED hist
Finish == /\ status = "running" /\ at = STEPS
          /\ out' = [own |-> FALSE, v |-> work[STEPS] + work[1]] /\ status' = "ok" /\ call' = Nothing /\ UNCHANGED <<at, work, hist>>
Next == Begin \/ Refuse \/ Compute \/ Finish
Last == hist[Len(hist)]
LastWrong == Last.k # "good" /\ (Last.k # "out" \/ Last.fn = "net_proba")
Told == status \in {"ok", "error"} => ((status = "error") <=> LastWrong)
Untouched == status = "error" => out.own
Same == status = "ok" => out = [own |-> FALSE, v |-> F(Last.row, STEPS) + F(Last.row, 1)]
Emit == IF EMIT /\ call = Nothing /\ Len(hist) = DEPTH THEN PrintT("BEH " \o ToJson(hist)) ELSE TRUE
=============================================================================
