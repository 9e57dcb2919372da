----------------------------- MODULE IdentTrace -----------------------------
(* Judges recorded saves.                                                    *)
(*   save  name (codes), word, given (was a name given), path (codes), key   *)
(*         (the path as text, or "none"), raised, text, files after it       *)
(*   csv   the same without a rule for the name                              *)
(*   build lang, ok, names, symbols (those visible to the linker)            *)
(*   answer res, alone                                                       *)
EXTENDS Ident, TraceLib
VARIABLES sid, l, st
Start(s) == s.files
AsSet(f) == {<<x, f[x]>> : x \in DOMAIN f}
Judge(s, files, e) ==
    CASE e.op \in {"save", "csv"} ->
         LET eff == IF e.given THEN e.name ELSE Base(e.path)
             some == e.given \/ e.key # "none"
             ok == some /\ (e.op = "csv" \/ Accepted(eff, e.word))
             st1 == IF ok /\ e.key # "none" THEN Saved(files, e.key, e.text) ELSE files
         IN [st |-> st1, bad |-> Clause(e.raised = ~ok, IF ok THEN "refused" ELSE "accepted")
                                 \cup Clause(AsSet(e.files) = AsSet(st1), "files")
                                 \cup (IF ok /\ ~e.given THEN Clause(e.effective = eff, "default-name") ELSE {})]
      [] e.op = "build" -> [st |-> files, bad |-> Clause(e.ok, "does-not-compile-" \o e.lang)
                                 \cup Clause(\A i \in DOMAIN e.symbols : \E j \in DOMAIN e.names : IsPrefix(e.names[j], e.symbols[i]), "foreign-symbol")
                                 \cup Clause(\A j \in DOMAIN e.names : ~e.ok \/ \E i \in DOMAIN e.symbols : IsPrefix(e.names[j], e.symbols[i]), "no-symbol")]
      [] e.op = "answer" -> [st |-> files, bad |-> Clause(e.res = e.alone, "answers")]
      [] OTHER -> [st |-> files, bad |-> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = Start(Sessions[sid])
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
