------------------------------ MODULE FftTrace ------------------------------
(* Judges recorded transforms.  A session carries the roots of unity of its *)
(* length M, scaled by S = 10^5 (c, s: cosine and sine of 2 pi i / M); the   *)
(* specification first checks that they are the roots of unity.  Inputs are *)
(* small integers.                                                          *)
(*   fill   n, len, ret                                                      *)
(*   dft    n, len, ret, pos, re, im (non-zero inputs), ks, outre, outim     *)
(*          (scaled by S), untouched                                         *)
(*   real   the extension: real part for a real input                        *)
EXTENDS Fft, TraceLib
VARIABLES sid, l, st
S == 100000
Near(a, b, t) == Abs(a - b) <= t
\* c, s (1-based) are S times the roots of unity of order M: unit length, the powers of the first one,
\* and that one is the primitive root in the first quadrant (its cosine grows with M)
Sq(u, v) == (u \div 10) * (v \div 10)          \* product in units of 10^-8 of S^2, stays in 32 bits only for u v <= S^2
Roots(c, s, M) ==
    /\ c[1] = S /\ s[1] = 0
    /\ (M = 2 => c[2] = -S /\ s[2] = 0)
    /\ (M >= 4 => /\ c[M \div 4 + 1] = 0 /\ s[M \div 4 + 1] = S
                  /\ c[M \div 2 + 1] = -S /\ s[M \div 2 + 1] = 0
                  /\ c[3 * (M \div 4) + 1] = 0 /\ s[3 * (M \div 4) + 1] = -S)
    /\ \A i \in 1..(M - 1) :                      \* the point at i + 1 is the point at i turned by the first angle
         /\ Near(Sq(c[i], c[2]) - Sq(s[i], s[2]), c[i + 1] * (S \div 100), 60 * 2000)
         /\ Near(Sq(c[i], s[2]) + Sq(s[i], c[2]), s[i + 1] * (S \div 100), 60 * 2000)
    /\ \A i \in 1..M : Near(Sq(c[i], c[i]) + Sq(s[i], s[i]), S * (S \div 100), 60 * 2000)
    /\ \A i \in 1..(M \div 4) : c[i + 1] < c[i] /\ s[i + 1] > s[i]
\* index of w_n^(p k) in the table of order M
Ang(n, M, p, k) == LET a == MulMod(p % n, k % n, n) IN IF n <= M THEN a * (M \div n) ELSE a \div (n \div M)
Exact(n, M, p, k) == n <= M \/ MulMod(p % n, k % n, n) % (n \div M) = 0
RECURSIVE SumRe(_, _, _, _)
SumRe(s, e, k, j) == IF j > Len(e.pos) THEN 0
    ELSE LET g == Ang(e.n, s.M, e.pos[j], k) + 1 IN e.re[j] * s.c[g] + e.im[j] * s.s[g] + SumRe(s, e, k, j + 1)
RECURSIVE SumIm(_, _, _, _)
SumIm(s, e, k, j) == IF j > Len(e.pos) THEN 0
    ELSE LET g == Ang(e.n, s.M, e.pos[j], k) + 1 IN e.im[j] * s.c[g] - e.re[j] * s.s[g] + SumIm(s, e, k, j + 1)
RECURSIVE Mass(_, _)
Mass(e, j) == IF j > Len(e.pos) THEN 0 ELSE Abs(e.re[j]) + Abs(e.im[j]) + Mass(e, j + 1)
Judge(s, st0, e) ==
    CASE e.op = "roots" -> [st |-> st0, bad |-> IF Roots(s.c, s.s, s.M) THEN {} ELSE {"MACHINERY-roots"}]
      [] e.op = "fill" -> [st |-> st0, bad |-> Clause(~(e.len # e.n \div 2 /\ e.ret = 0), "fill-wrong-length-accepted")
                                               \cup Clause(~(Accepts(e.n, e.len) /\ e.ret # 0), "fill-refused")]
      [] e.op = "dft" ->
           [st |-> st0, bad |->
              IF Accepts(e.n, e.len)
              THEN IF e.ret # 0 THEN {"valid-length-refused"} ELSE
                   LET tol == 2 * Mass(e, 1) + 2 IN
                   Clause(\A q \in 1..Len(e.ks) : Exact(e.n, s.M, 1, 1) \/ \A j \in 1..Len(e.pos) : Exact(e.n, s.M, e.pos[j], e.ks[q]), "MACHINERY-angle")
                   \cup Clause(\A q \in 1..Len(e.ks) : Near(e.outre[q], SumRe(s, e, e.ks[q], 1), tol), "real-part")
                   \cup Clause(\A q \in 1..Len(e.ks) : Near(e.outim[q], SumIm(s, e, e.ks[q], 1), tol), "imaginary-part")
              ELSE Clause(e.ret # 0, "invalid-length-accepted") \cup Clause(e.untouched, "data-changed-on-error")]
      [] e.op = "real" ->
           [st |-> st0, bad |->
              IF IsPow2(e.n)
              THEN IF e.raised THEN {"valid-length-refused"} ELSE
                   LET tol == 2 * Mass(e, 1) + 2 IN
                   Clause(Len(e.outre) = e.n /\ \A q \in 1..Len(e.ks) : Near(e.outre[q], SumRe(s, e, e.ks[q], 1), tol), "extension-real-part")
              ELSE Clause(e.raised, "extension-invalid-length-accepted")]
      [] OTHER -> [st |-> st0, bad |-> {e.op}]
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED sid
         /\ LET r == Judge(Sessions[sid], st, Sessions[sid].ev[l + 1])
            IN /\ st' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(r.bad))
=============================================================================
