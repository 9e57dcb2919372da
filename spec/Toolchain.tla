------------------------------ MODULE Toolchain ------------------------------
(* Measuring the size of a program on a device with a cross tool chain: what  *)
(* a request needs, which requests must be refused or fail, and how one       *)
(* measurement goes from the program text to two figures.                     *)
EXTENDS SizeReport
Platforms == {"avr", "arm"}
Tools(p) == IF p = "avr" THEN {"make", "avr-gcc", "avr-size"} ELSE {"make", "arm-none-eabi-gcc", "arm-none-eabi-size"}
Missing(p, have) == Tools(p) \ have
ArmMcus == {"Cortex-M0", "Cortex-M0+", "Cortex-M3", "Cortex-M4F"}
\* what the linked program must be built for, as its ELF attributes say
ArmArch(m) == CASE m = "Cortex-M0" -> "v6S-M" [] m = "Cortex-M0+" -> "v6S-M" [] m = "Cortex-M3" -> "v7" [] m = "Cortex-M4F" -> "v7E-M"
ArmFpu(m) == IF m = "Cortex-M4F" THEN "VFPv4-D16" ELSE "none"
\* a request: platform, mcu, dirs ("default" = the headers of the library, or a set of folder names), prog
\* programs: what they include and whether they are correct
NeedsDir(prog) == CASE prog = "library" -> {"emlearn"} [] prog = "own" -> {"own"} [] prog = "both" -> {"emlearn", "own"} [] OTHER -> {}
Correct(prog) == prog \notin {"syntax", "undefined"}
DirsOf(r) == IF r.dirs = {"default"} THEN {"emlearn"} ELSE r.dirs
Refused(r) == r.platform \notin Platforms \/ (r.platform = "arm" /\ r.mcu \notin ArmMcus)
AvrMcus == {"atmega328", "atmega328p", "atmega2560", "attiny85", "atmega32u4"}
Builds(r) == ~Refused(r) /\ (r.platform = "avr" => r.mcu \in AvrMcus) /\ Correct(r.prog) /\ NeedsDir(r.prog) \subseteq DirsOf(r)
\* tools: those present and working
Sizes(r, works) == Builds(r) /\ Tools(r.platform) \subseteq works
=============================================================================
