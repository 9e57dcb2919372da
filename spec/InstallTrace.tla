------------------------------ MODULE InstallTrace ------------------------------
(* Every event carries the complete projected file trees as sequences of         *)
(* [f, c] (name, content identity):                                               *)
(*   world    shipped, present, lib, outside     after anything the user did      *)
(*   install  update, raised, present, lib, outside, ret                          *)
EXTENDS Install, TraceLib
VARIABLES sid, l, st
Tree(s) == [f \in {s[i].f : i \in DOMAIN s} |-> (CHOOSE i \in DOMAIN s : s[i].f = f)]
Dir(s) == LET t == Tree(s) IN [f \in DOMAIN t |-> s[t[f]].c]
LibOf(e) == IF e.present THEN Dir(e.lib) ELSE Absent
JWorld(e) == [st |-> [shipped |-> Dir(e.shipped), lib |-> LibOf(e), outside |-> Dir(e.outside)], bad |-> {}]
JInstall(s0, e) ==
    LET want == AfterInstall(s0.lib, s0.shipped, e.update)  got == LibOf(e)
        refused == Refused(s0.lib, e.update)
    IN [st |-> [s0 EXCEPT !.lib = got, !.outside = Dir(e.outside)],
        bad |-> Clause(e.raised = refused, IF refused THEN "clobbers-present-library" ELSE "valid-install-refused")
           \cup (IF refused THEN Clause(got = s0.lib, "refusal-changed-library")
                 ELSE Clause(Present(got) /\ \A f \in DOMAIN s0.shipped : f \in DOMAIN got /\ got[f] = s0.shipped[f], "file-missing-or-stale")
                      \cup Clause(~Present(s0.lib) \/ ~Present(got) \/ \A f \in DOMAIN s0.lib \ DOMAIN s0.shipped : f \in DOMAIN got /\ got[f] = s0.lib[f], "unrelated-file-changed")
                      \cup Clause(~Present(got) \/ DOMAIN got \subseteq DOMAIN want, "foreign-file-added"))
           \cup Clause(Dir(e.outside) = s0.outside, "changed-outside-library")]
Judge(s, s0, e) == CASE e.op = "world" -> JWorld(e) [] e.op = "install" -> JInstall(s0, e) [] OTHER -> [st |-> s0, bad |-> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = [shipped |-> <<>>, lib |-> Absent, outside |-> <<>>]
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
