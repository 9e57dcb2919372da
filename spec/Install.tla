-------------------------------- MODULE Install --------------------------------
(* Installing the C headers as an Arduino library.  A directory is a function   *)
(* from file names to contents (numbers); state: lib = files of the library     *)
(* directory or Absent.                                                          *)
EXTENDS Integers, Sequences, FiniteSets
Absent == [none |-> -1]
Present(lib) == lib # Absent
\* files of d1 replace those of d2
Over(d1, d2) == [f \in (DOMAIN d1) \cup (DOMAIN d2) |-> IF f \in DOMAIN d1 THEN d1[f] ELSE d2[f]]
Refused(lib, update) == Present(lib) /\ ~update
AfterInstall(lib, shipped, update) ==
    IF Refused(lib, update) THEN lib ELSE IF Present(lib) THEN Over(shipped, lib) ELSE shipped
=============================================================================
