------------------------------- MODULE Builds -------------------------------
(* What debugging and logging may change: the log, and nothing else.         *)
(* Error codes and the names their descriptions must carry.                  *)
EXTENDS Integers, Sequences, FiniteSets
Codes == 0..5
NameOf(code) == CASE code = 0 -> "ok" [] code = 1 -> "sizemismatch" [] code = 2 -> "unsupported"
                  [] code = 3 -> "uninitialized" [] code = 4 -> "postconditionfailed" [] code = 5 -> "unknownerror"
\* results of one operation, one entry per build: all the same
Same(vals) == \A k \in 1..Len(vals) : vals[k] = vals[1]
(* Where the code has to compile.  A unit is a header by itself (or all of     *)
(* them) or the code of a converted model; the test helpers read files and    *)
(* need a hosted C library.                                                   *)
Hosted == {"c99", "c11", "clang99", "cxx11", "cxx17"}
Embedded == {"avr", "arm", "arm4", "avrcxx", "armcxx"}
HostOnly == {"eml_test.h"}
Supported(kind, unit, target) == target \in Hosted \/ (target \in Embedded /\ ~(kind = "header" /\ unit \in HostOnly))
=============================================================================
