---------------------------- MODULE Toolchain_MC ----------------------------
(* Measurements one after the other; each can fail at every step.  Also       *)
(* generates the requests that are replayed.                                   *)
EXTENDS Toolchain, TLC, Json
CONSTANTS PROGS, DIRS, BROKEN, EMIT
ALLTOOLS == Tools("avr") \cup Tools("arm")
MCU(p) == IF p = "avr" THEN {"atmega328", "atmega2560", "nodevice"} ELSE IF p = "arm" THEN ArmMcus \cup {"Cortex-M9"} ELSE {"x"}
Requests == UNION {[platform : {p}, mcu : MCU(p), dirs : DIRS, prog : PROGS] : p \in Platforms \cup {"z80"}}
VARIABLES req, works, step, temp, result
vars == <<req, works, step, temp, result>>
Init == req \in Requests /\ works \in {ALLTOOLS \ {b} : b \in BROKEN \cup {"none"}} /\ step = "start" /\ temp = {} /\ result = "none"
End(x) == step' = "end" /\ temp' = {} /\ result' = x /\ UNCHANGED <<req, works>>
Go(s, f) == step' = s /\ temp' = temp \cup f /\ UNCHANGED <<req, works, result>>
Start == step = "start" /\ IF req.platform \notin Platforms THEN End("refused") ELSE Go("choose", {})
Choose == step = "choose" /\ IF Refused(req) THEN End("refused") ELSE Go("write", {"prog.c"})
Compile == step = "write" /\ (IF {"make", CHOOSE t \in Tools(req.platform) : t \in {"avr-gcc", "arm-none-eabi-gcc"}} \subseteq works
              /\ req.prog # "syntax" /\ NeedsDir(req.prog) \subseteq DirsOf(req) /\ (req.platform = "avr" => req.mcu \in AvrMcus)
              THEN Go("compiled", {"prog.o"}) ELSE End("failed"))
Link == step = "compiled" /\ IF Correct(req.prog) THEN Go("linked", {"out.elf"}) ELSE End("failed")
Size == step = "linked" /\ IF Tools(req.platform) \subseteq works THEN End("sizes") ELSE End("failed")
Next == Start \/ Choose \/ Compile \/ Link \/ Size
Decided == step = "end" => /\ (result = "sizes") = Sizes(req, works) /\ (result = "refused") = Refused(req)
NothingLeft == step = "end" => temp = {}
Honest == result = "sizes" => req.platform \in Platforms
Emit == (EMIT /\ step = "end" /\ works = ALLTOOLS) => PrintT("BEH " \o ToJson([platform |-> req.platform, mcu |-> req.mcu, dirs |-> req.dirs, prog |-> req.prog]))
=============================================================================
