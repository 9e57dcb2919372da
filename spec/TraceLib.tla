---------------------------- MODULE TraceLib ----------------------------
(* Shared by all trace judges.  A judge module EXTENDS TraceLib, defines   *)
(*     TraceInitState(s)    initial abstract state of session s            *)
(*     Judge(s, st, e)      [st |-> next abstract state, bad |-> set of    *)
(*                           names of violated clauses]                    *)
(* and instantiates TInit/TNext below.  Every event is judged; TLC prints  *)
(* one MISMATCH line per violated event and never stops early.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

Has(r, f) == f \in DOMAIN r
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clause(cond, name) == IF cond THEN {} ELSE {name}
NOINT == -2147483647
NAN == -2147483646
=============================================================================
