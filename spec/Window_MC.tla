----------------------------- MODULE Window_MC -----------------------------
(* A stream fed in chunks through Push leaves the window equal to the last  *)
(* rows of everything that was fed (after the initial contents).            *)
EXTENDS ArrayTable, TLC, Json
CONSTANTS W, MAXFED, EMIT
VARIABLES win, fed, h
vars == <<win, fed, h>>
Row(i) == <<i>>
Init == win = [cols |-> 1, rows |-> W, vs |-> 2, t |-> [r \in 1..W |-> Row(-r)]] /\ fed = [r \in 1..W |-> Row(-r)] /\ h = <<>>
Chunk(n) == [cols |-> 1, rows |-> n, vs |-> 2, t |-> [r \in 1..n |-> Row(Len(fed) - W + r)]]
Feed(n) == /\ Len(fed) - W + n <= MAXFED
           /\ win' = Push(win, Chunk(n)) /\ fed' = fed \o Chunk(n).t /\ h' = Append(h, n)
Next == \E n \in 1..W : Feed(n)
Newest == win.t = Last(fed, W)
Ordered == \A r \in 1..(W - 1) : win.t[r][1] < 0 \/ win.t[r + 1][1] = win.t[r][1] + 1
Emit == (EMIT /\ Len(fed) - W = MAXFED) => PrintT("BEH " \o ToJson(h))
=============================================================================
