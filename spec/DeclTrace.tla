----------------------------- MODULE DeclTrace -----------------------------
(* Judges generated declarations by the values the compiler reads from them.*)
(*   ints    given, read: lists of Big; count: number of elements declared   *)
(*   floats  given, read: lists of Big in a unit of 2^-u each, so that a     *)
(*           non-zero given value has at least 2^40 units; exact zero is zero*)
(*   fixed   given, read: lists of Big, given in 2^-48, read in 2^-16        *)
EXTENDS Decl, Big, TraceLib
VARIABLES sid, l, st
\* the nearest single precision number, or one next to it: 2^-23 relative
Single(g, r) == IF g.m = <<>> THEN r.m = <<>> ELSE LeB(MulB(AbsB(SubB(g, r)), Pow2B(23)), AbsB(g))
Judge(s, st0, e) ==
    CASE e.op = "ints" -> [st |-> st0, bad |->
              Clause(e.count = Len(e.given), "number-of-elements")
              \cup Clause(Len(e.read) = Len(e.given) /\ \A k \in 1..Len(e.given) : EqB(e.read[k], e.given[k]), "integer-value")]
      [] e.op = "floats" -> [st |-> st0, bad |->
              Clause(e.count = Len(e.given), "number-of-elements")
              \cup Clause(Len(e.read) = Len(e.given) /\ \A k \in 1..Len(e.given) : Single(e.given[k], e.read[k]), "float-value")]
      [] e.op = "fixed" -> [st |-> st0, bad |->
              Clause(e.count = Len(e.given), "number-of-elements")
              \cup Clause(Len(e.read) = Len(e.given) /\ \A k \in 1..Len(e.given) : LtB(AbsB(SubB(MulB(e.read[k], Pow2B(32)), e.given[k])), Pow2B(32)), "fixed-point-value")]
      [] e.op = "equal" -> [st |-> st0, bad |-> Clause(e.a = e.b, e.what)]
      [] OTHER -> [st |-> st0, bad |-> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
