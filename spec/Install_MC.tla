------------------------------- MODULE Install_MC -------------------------------
(* Histories of releases, user edits and installs.                               *)
EXTENDS Install, TLC, Json
CONSTANTS DEPTH, EMIT
HEADERS == {"eml_a.h", "eml_b.h", "VERSION.txt"}
VARIABLES shipped, lib, outside, rev, h
vars == <<shipped, lib, outside, rev, h>>
Init == shipped = [f \in HEADERS |-> 1] /\ lib = Absent /\ outside = 0 /\ rev = 1 /\ h = <<>>
Log(o) == h' = Append(h, o)
InstallOp(u) == lib' = AfterInstall(lib, shipped, u) /\ Log([op |-> "install", update |-> u]) /\ UNCHANGED <<shipped, outside, rev>>
Release == \E f \in {"eml_a.h", "VERSION.txt", "eml_new.h"} :
              /\ shipped' = Over([x \in {f} |-> rev + 1], shipped) /\ rev' = rev + 1
              /\ Log([op |-> "release", f |-> f]) /\ UNCHANGED <<lib, outside>>
UserEdit == Present(lib) /\ \E f \in {"eml_b.h", "notes.txt"} :
              /\ lib' = Over([x \in {f} |-> 100 + rev], lib) /\ Log([op |-> "edit", f |-> f]) /\ UNCHANGED <<shipped, outside, rev>>
UserDelete == Present(lib) /\ "eml_a.h" \in DOMAIN lib /\ lib' = [f \in DOMAIN lib \ {"eml_a.h"} |-> lib[f]]
              /\ Log([op |-> "delete", f |-> "eml_a.h"]) /\ UNCHANGED <<shipped, outside, rev>>
UserRemoves == Present(lib) /\ lib' = Absent /\ Log([op |-> "remove"]) /\ UNCHANGED <<shipped, outside, rev>>
\* an empty folder of that name: made by the user, or everything in it deleted
UserEmpties == lib # <<>> /\ lib' = <<>> /\ Log([op |-> "empty"]) /\ UNCHANGED <<shipped, outside, rev>>
Next == Len(h) < DEPTH /\ (InstallOp(TRUE) \/ InstallOp(FALSE) \/ Release \/ UserEdit \/ UserDelete \/ UserRemoves \/ UserEmpties)
Last == h[Len(h)]
\* a successful install leaves every shipped file as shipped
Complete == [][\A u \in BOOLEAN : (InstallOp(u) /\ ~Refused(lib, u)) => \A f \in DOMAIN shipped : f \in DOMAIN lib' /\ lib'[f] = shipped[f]]_vars
NoClobber == [][InstallOp(FALSE) => (Present(lib) => lib' = lib)]_vars
KeepsUnrelated == [][\A u \in BOOLEAN : InstallOp(u) => (Present(lib) => \A f \in DOMAIN lib \ DOMAIN shipped : f \in DOMAIN lib' /\ lib'[f] = lib[f])]_vars
Outside == outside = 0
Emit == (EMIT /\ Len(h) = DEPTH /\ Last.op = "install") => PrintT("BEH " \o ToJson(h))
=============================================================================
