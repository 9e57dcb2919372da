--------------------------- MODULE ToolchainTrace ---------------------------
(* missing  platform, have, got (tools named as missing), raised              *)
(* size     platform, mcu, dirs, prog, works; raised, kind; when it returned: *)
(*          flash, ram, secs (of the measured program file), ref (sections of *)
(*          an independent build of the same text), arch, fpu, device,        *)
(*          marker (the text compiled was the one asked for); left (files     *)
(*          left behind)                                                       *)
EXTENDS Toolchain, TraceLib
VARIABLES sid, l, st
ToSet(s) == {s[i] : i \in DOMAIN s}
Req(e) == [platform |-> e.platform, mcu |-> e.mcu, dirs |-> ToSet(e.dirs), prog |-> e.prog]
JMissing(e) == IF e.platform \notin Platforms THEN Clause(e.raised, "unknown-platform-accepted")
    ELSE Clause(~e.raised, "known-platform-refused") \cup Clause(e.raised \/ ToSet(e.got) = Missing(e.platform, ToSet(e.have)), "missing-tools")
JPrograms(e) == Clause(~e.raised /\ ToSet(e.got) = ToSet(e.asked) \ ToSet(e.have), "missing-programs")
Built(e) == IF e.platform = "arm" THEN e.arch = ArmArch(e.mcu) /\ e.fpu = ArmFpu(e.mcu) ELSE e.device = e.mcu
JSize(e) ==
    LET r == Req(e) want == Sizes(r, ToSet(e.works))
    IN Clause(e.left = <<>>, "files-left-behind")
       \cup (IF e.raised THEN Clause(~want, "valid-request-failed") \cup Clause(~Refused(r) \/ e.kind = "value", "refusal-not-a-value-error")
             ELSE Clause(want, "figures-for-a-failed-build")
                  \cup (IF ~want THEN {} ELSE
                        Clause(e.marker, "another-program-measured") \cup Clause(Built(e), "built-for-another-device")
                        \cup Clause(e.flash = Flash(e.secs), "flash") \cup Clause(e.ram = Ram(e.secs), "ram")
                        \cup Clause(Flash(e.ref) = e.flash /\ Ram(e.ref) = e.ram, "not-the-size-optimised-program")))
Judge(s, s0, e) == [st |-> s0, bad |-> CASE e.op = "missing" -> JMissing(e) [] e.op = "programs" -> JPrograms(e) [] e.op = "size" -> JSize(e) [] OTHER -> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
