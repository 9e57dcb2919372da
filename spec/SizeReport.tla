------------------------------ MODULE SizeReport ------------------------------
(* Section listings of a program: a sequence of [name, size] with different    *)
(* names, in any order, printed with any spacing.                               *)
EXTENDS Integers, Sequences, FiniteSets
SizeOf(secs, name) == IF \E i \in DOMAIN secs : secs[i].name = name
                      THEN secs[CHOOSE i \in DOMAIN secs : secs[i].name = name].size ELSE 0
Flash(secs) == SizeOf(secs, ".text") + SizeOf(secs, ".data") + SizeOf(secs, ".rodata")
Ram(secs) == SizeOf(secs, ".data") + SizeOf(secs, ".bss")
=============================================================================
