---------------------------- MODULE ForestTrace ----------------------------
(* Judges recorded runs of converted tree ensembles against Forest.tla.    *)
(* A session is one source ensemble:                                       *)
(*   kind "hard" | "soft" | "reg", forest, nc, nt, bits, vs                *)
(* Events                                                                  *)
(*   source  x, leaf, answer           the source library itself (binding  *)
(*                                     of the specification, not of emlearn)*)
(*   predict x, res = <<[via, cls, p], ..>>  every inference path          *)
(*   csv     nodes, roots, leaves, nf, nc, lb, xs                          *)
(*   refused via, why | nocompile | crash                                  *)
EXTENDS Forest, TraceLib
VARIABLES sid, l, st

\* ---- hard voting ----
HardProbaOK(s, x, p) ==
    LET v == Votes(s.forest, x, s.nc)
    IN Len(p) = s.nc /\ \A c \in 1..s.nc : Abs(p[c] * s.nt - v[c] * 1000000) <= 2 * s.nt
HardRes(s, x, r) ==
    IF Has(r, "crash") THEN {"crash"} ELSE
    Clause(~Has(r, "cls") \/ r.cls = HardClass(s.forest, x, s.nc), "class")
    \cup (IF Has(r, "p") THEN Clause(HardProbaOK(s, x, r.p), "vote-fractions") ELSE {})
    \cup (IF Has(r, "err") THEN Clause(r.err = 0, "error-code") ELSE {})

\* ---- soft voting (proportions scaled by s.one, probabilities by 10^5) ----
Vals(s, x) == [t \in 1..s.nt |-> ValueOf(s.forest[t], x)]
ByteLo(s, p) == LevelByteLo(p, s.one, s.bits)
ByteHi(s, p) == LevelByteHi(p, s.one, s.bits)
RECURSIVE SumF(_, _, _)
SumF(f(_), i, n) == IF i > n THEN 0 ELSE f(i) + SumF(f, i + 1, n)
SoftProbaOK(s, vals, p) ==
    Len(p) = s.nc /\ \A c \in 1..s.nc :
        LET lo == SumF(LAMBDA t : ByteLo(s, vals[t][c]), 1, s.nt)
            hi == SumF(LAMBDA t : ByteHi(s, vals[t][c]), 1, s.nt)
            \* sum * 100000 / trees, without exceeding the integers of TLC
            per(v) == (v \div s.nt) * 100000 + ((v % s.nt) * 100000) \div s.nt
        IN p[c] * 255 >= per(lo) - 300 /\ p[c] * 255 <= per(hi) + 301
MaxOf(p) == p[CHOOSE i \in DOMAIN p : \A j \in DOMAIN p : p[j] <= p[i]]
SoftClassOK(s, vals, p, cls) ==
    /\ cls \in 0..(s.nc - 1) /\ p[cls + 1] >= MaxOf(p) - 2
    /\ ~\E c \in 0..(cls - 1) : \A t \in 1..s.nt : vals[t][c + 1] = vals[t][cls + 1]
SoftRes(s, vals, r, p0) ==
    IF Has(r, "crash") THEN {"crash"} ELSE
    (IF Has(r, "p") THEN Clause(SoftProbaOK(s, vals, r.p), "proportions") ELSE {})
    \cup (IF Has(r, "err") THEN Clause(r.err = 0, "error-code") ELSE {})
    \cup (IF Has(r, "cls") THEN
            Clause(IF Has(r, "p") /\ Len(r.p) = s.nc THEN SoftClassOK(s, vals, r.p, r.cls)
                   ELSE SoftClassOK(s, vals, p0, r.cls), "class") ELSE {})

\* ---- regression: leaf values scaled by s.vs, outputs by s.vs * 16 ----
RegSum(s, x) == SumF(LAMBDA t : ValueOf(s.forest[t], x)[1], 1, s.nt)
\* tolerance: half a unit per rounded leaf value, half a unit of the recorded output, plus
\* single precision relative to the largest leaf (s.tol)
RegRes(s, sum, r) ==
    IF Has(r, "crash") THEN {"crash"} ELSE
    Clause(r.y # NAN /\ r.y # NOINT /\ Abs(r.y * s.nt - sum * 16) <= s.nt * s.tol, "mean-of-leaves")

Agree(res) == \A i, j \in DOMAIN res : (Has(res[i], "p") /\ Has(res[j], "p") /\ Len(res[i].p) = Len(res[j].p)) =>
                  \A c \in DOMAIN res[i].p : Abs(res[i].p[c] - res[j].p[c]) <= 2

PredictEv(s, e) ==
    CASE s.kind = "hard" -> UNION {HardRes(s, e.x, e.res[i]) : i \in DOMAIN e.res}
      [] s.kind = "soft" ->
           LET vals == Vals(s, e.x)
               withp == {i \in DOMAIN e.res : Has(e.res[i], "p") /\ Len(e.res[i].p) = s.nc}
               p0 == IF withp = {} THEN [c \in 1..s.nc |-> 0] ELSE e.res[CHOOSE i \in withp : TRUE].p
           IN UNION {SoftRes(s, vals, e.res[i], p0) : i \in DOMAIN e.res} \cup Clause(Agree(e.res), "methods-agree")
      [] s.kind = "reg" ->
           LET sum == RegSum(s, e.x) IN UNION {RegRes(s, sum, e.res[i]) : i \in DOMAIN e.res}

\* ---- the exported description answers like the source ----
CsvLeaf(e, t, x) == FlatLeafLE(e.nodes, x, e.roots[t], Len(e.nodes) + 1)
CsvEv(s, e) ==
    IF ~(Len(e.roots) = s.nt /\ WellFormed(e.nodes, e.roots, Len(e.leaves))) THEN {"csv-structure"} ELSE
    Clause(e.nf = s.nf /\ e.nc = (IF s.kind = "reg" THEN 0 ELSE s.nc), "csv-header")
    \cup Clause(\A k \in DOMAIN e.nodes : e.nodes[k].f \in 0..(s.nf - 1), "csv-feature")
    \cup Clause(\A q \in DOMAIN e.xs : \A t \in 1..s.nt :
            LET lf == CsvLeaf(e, t, e.xs[q]) IN
            /\ lf >= 0
            /\ LET got == e.leaves[lf + 1]
                   want == ValueOf(s.forest[t], e.xs[q])
               IN CASE s.kind = "hard" -> got = <<ArgMax(want)>>
                    [] s.kind = "soft" -> Len(got) = s.nc /\ \A c \in 1..s.nc : got[c] >= ByteLo(s, want[c]) /\ got[c] <= ByteHi(s, want[c])
                    [] s.kind = "reg" -> Len(got) = 1 /\ Abs(got[1] - want[1]) <= 1, "csv-walk")

Judge(s, st0, e) ==
    [st |-> st0, bad |->
        CASE e.op = "predict" -> PredictEv(s, e)
          [] e.op = "csv" -> CsvEv(s, e)
          [] e.op = "source" -> Clause(\A t \in 1..s.nt : LeafOf(s.forest[t], e.x, 1) = e.leaf[t], "SPEC-source-leaf")
          [] e.op \in {"refused", "nocompile", "crash", "hang"} -> {e.op}
          [] OTHER -> {"unknown-event"}]

TraceInitState(s) == 0
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = TraceInitState(Sessions[sid])
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
