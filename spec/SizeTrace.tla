------------------------------ MODULE SizeTrace ------------------------------
(* parse  secs (names as listed, lower case), got: sequence of [name, size]    *)
(* report secs, flash, ram                                                      *)
EXTENDS SizeReport, TraceLib
VARIABLES sid, l, st
OPTIONAL == {".rodata", ".data", ".bss"}
JParse(e) == Clause(\A i \in DOMAIN e.secs : \E j \in DOMAIN e.got : e.got[j] = e.secs[i], "section-size")
    \cup Clause(\A n \in OPTIONAL : \E j \in DOMAIN e.got : e.got[j].name = n /\ e.got[j].size = SizeOf(e.secs, n), "missing-section-not-zero")
JReport(e) == Clause(e.flash = Flash(e.secs), "flash") \cup Clause(e.ram = Ram(e.secs), "ram")
Judge(s, s0, e) == [st |-> s0, bad |-> CASE e.op = "parse" -> JParse(e) [] e.op = "report" -> JReport(e) [] OTHER -> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
