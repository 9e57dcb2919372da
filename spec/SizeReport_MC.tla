---------------------------- MODULE SizeReport_MC ----------------------------
(* A linker places sections one after the other in any order; the report      *)
(* tracks the totals.  Also generates listings.                                *)
EXTENDS SizeReport, TLC, Json
CONSTANTS NAMES, SIZES, EMIT, DEPTH
VARIABLES secs, flash, ram
Init == secs = <<>> /\ flash = 0 /\ ram = 0
Used == {secs[i].name : i \in DOMAIN secs}
Next == /\ Len(secs) < DEPTH
        /\ \E n \in NAMES \ Used, z \in SIZES :
            /\ secs' = Append(secs, [name |-> n, size |-> z])
            /\ flash' = flash + (IF n \in {".text", ".data", ".rodata"} THEN z ELSE 0)
            /\ ram' = ram + (IF n \in {".data", ".bss"} THEN z ELSE 0)
Totals == flash = Flash(secs) /\ ram = Ram(secs)
Emit == (EMIT /\ \E i \in DOMAIN secs : secs[i].name = ".text") => PrintT("BEH " \o ToJson(secs))
=============================================================================
