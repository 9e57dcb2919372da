----------------------------- MODULE HeapTrace -----------------------------
(*   enter / leave  fn            a function of the library                  *)
(*   alloc / free   what, where   in the order they happened                 *)
(*   many   n                     n further enter/leave pairs, nothing else  *)
(*   end    calls                 the program ended, after this many calls   *)
(*   imports   names              what compiled library code refers to       *)
EXTENDS Heap, TraceLib
VARIABLES sid, l, st
Judge(s, st0, e) ==
    CASE e.op = "enter" -> [st |-> Enter(st0), bad |-> {}]
      [] e.op = "leave" -> [st |-> Leave(st0), bad |-> Clause(st0.depth > 0, "unbalanced")]
      [] e.op \in {"alloc", "free"} -> [st |-> st0, bad |-> Clause(Allowed(st0), e.what)]
      [] e.op = "inside" -> [st |-> st0, bad |-> {e.what}]
      [] e.op = "many" -> [st |-> st0, bad |-> {}]
      [] e.op = "end" -> [st |-> st0, bad |-> Clause(st0.depth = 0, "unbalanced") \cup Clause(e.calls > 0, "nothing-called")]
      [] e.op = "imports" -> [st |-> st0, bad |-> {e.names[k] : k \in {j \in 1..Len(e.names) : e.names[j] \in Allocators}} \cup Clause(Len(e.names) > 0, "nothing-compiled")]
      [] OTHER -> [st |-> st0, bad |-> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = Start
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
