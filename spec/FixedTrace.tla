------------------------------ MODULE FixedTrace ------------------------------
(*  conv  who, f, x (units 2^-60), q        div  a, b, q                        *)
(*  back  f, x, y      agree  c, py         int  i, q, back                     *)
EXTENDS Fixed, TraceLib
VARIABLES sid, l, st
Judge(s, s0, e) == [st |-> s0, bad |->
    CASE e.op = "conv" -> Clause(Converted(e.x, e.f, e.q), "not-truncated-value-times-scale")
      [] e.op = "back" -> Clause(BackWithin(e.x, e.f, e.y), "back-off-by-more-than-a-step")
      [] e.op = "agree" -> Clause(EqB(e.c, e.py), "python-and-c-disagree")
      [] e.op = "div" -> IF DivRepresentable(e.a, e.b) THEN Clause(DivNearest(e.a, e.b, e.q), "quotient") ELSE {}
      [] e.op = "int" -> Clause(EqB(e.q, MulB(e.i, TwoTo16)), "from-int") \cup Clause(EqB(e.i, e.back), "to-int")
      [] e.op = "toint" -> Clause(LeB(MulB(e.i, TwoTo16), e.q) /\ LtB(e.q, MulB(AddB(e.i, FromInt(1)), TwoTo16)), "to-int-rounds-down")
      [] e.op = "mul" -> Clause(ProductOk(e.a, e.b, e.q), "product") \cup Clause(~(EqB(MulB(e.a8, TwoTo8), e.a) /\ EqB(MulB(e.b8, TwoTo8), e.b)) \/ ProductExact(e.a, e.b, e.q), "product-of-whole-256ths")
      [] e.op = "ctype" -> Clause((e.name = "eml_q16_t") = (e.int = 15 /\ e.fract = 16 /\ e.sign = 1) /\ e.name \in {"eml_q16_t", "eml_fixed32_t"}, "type-name")
      [] e.op = "shape" -> Clause(e.ok, "shape")
      [] OTHER -> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
