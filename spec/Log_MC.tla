------------------------------- MODULE Log_MC -------------------------------
(* Entries are built piece by piece; the text that has come out so far is    *)
(* always the rendering of the entry so far, and separate entries are        *)
(* separate lines.  Functions: over a bounded family, the hook is called at  *)
(* most once, with what is returned.                                          *)
EXTENDS Log, Json
CONSTANTS DEPTH, EMIT
Items == {[t |-> "string", key |-> "s", s |-> "x"], [t |-> "int", key |-> "i", i |-> -7], [t |-> "bool", key |-> "b", b |-> TRUE],
          [t |-> "float", key |-> "f", p |-> -17], [t |-> "ints", key |-> "a", a |-> <<1, -2, 3>>], [t |-> "ints", key |-> "e", a |-> <<>>], [t |-> "floats", key |-> "g", a |-> <<8>>]}
Steps1 == {[k |-> "pre", ok |-> o, code |-> 1] : o \in BOOLEAN} \cup {[k |-> "post", ok |-> o, code |-> 4] : o \in BOOLEAN} \cup {[k |-> "act"]}
Leafs == UNION {[1..n -> Steps1] : n \in 0..2}
VARIABLES done, cur, out, f
vars == <<done, cur, out, f>>
Init == done = <<>> /\ cur = [name |-> "", items |-> <<>>] /\ out = "" /\ f = <<>>
Begin == cur.name = "" /\ \E n \in {"e1", "event-two"} : cur' = [name |-> n, items |-> <<>>] /\ out' = out \o n /\ UNCHANGED <<done, f>>
Add == cur.name # "" /\ \E x \in Items : cur' = [cur EXCEPT !.items = Append(@, x)] /\ out' = out \o " " \o x.key \o "=" \o Value(x) /\ UNCHANGED <<done, f>>
End == cur.name # "" /\ done' = Append(done, cur) /\ cur' = [name |-> "", items |-> <<>>] /\ out' = out \o "\n" /\ UNCHANGED f
Size == Len(done) * 2 + Len(cur.items) + (IF cur.name = "" THEN 0 ELSE 1)
Grow == out = "" /\ Len(f) < 2 /\ (\E s \in Steps1 : f' = Append(f, s)) /\ UNCHANGED <<done, cur, out>>
Call == out = "" /\ Len(f) < 3 /\ (\E g \in Leafs : f' = Append(f, [k |-> "call", f |-> g])) /\ UNCHANGED <<done, cur, out>>
Next == (f = <<>> /\ Size < DEPTH /\ (Begin \/ Add)) \/ (f = <<>> /\ End) \/ Grow \/ Call
Lines == cur.name = "" => out = JoinTo(LAMBDA k : Line(done[k]), Len(done), "")
Hooked == LET r == Run(f) IN Len(r.hooks) <= 1 /\ (r.ret = 0) = (r.hooks = <<>>) /\ (r.ret # 0 => r.hooks = <<r.ret>>)
EmitLog == (EMIT /\ cur.name = "" /\ Len(done) > 0 /\ Size >= DEPTH - 2) => PrintT("BEH " \o ToJson([entries |-> done]))
EmitRun == (EMIT /\ Len(f) >= 2) => PrintT("BEH " \o ToJson([f |-> f]))
=============================================================================
