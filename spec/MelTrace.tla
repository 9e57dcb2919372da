------------------------------ MODULE MelTrace ------------------------------
(* Judges mel bands, power spectra and windows.  A session has the            *)
(* parameters sr, n (points of the transform), nm (bands), fmin, fmax and cs, *)
(* the nm + 2 centres (hundredths of a Hertz), which are checked first.       *)
(*   centres                                                                  *)
(*   mel     slen, mlen: lengths given; ret; pos (0-based), vs: non-zero       *)
(*           values of the spectrum; out (thousandths); kept: spectrum as it  *)
(*           was                                                              *)
(*   gram    whole pipeline: xs, the frame; ret, out (hundredths); tlen,       *)
(*           ilen, tab: lengths of temporary, frame and table                 *)
(*   power   n, ilen, olen, vs (quarters), ret, out (thousandths)             *)
(*   hann    n, xs, ret, out (10^5)                                           *)
(* Tables of unity roots, scaled by 10^5: wc, ws of order n - 1 (window),     *)
(* dc, ds of order n (transform).                                             *)
EXTENDS Mel, TraceLib
VARIABLES sid, l, st
S == 100000
Near(a, b, t) == a > NAN /\ Abs(a - b) <= t
Sq(u, v) == (u \div 10) * (v \div 10)
\* c, s (1-based, order M): each point is the one before it turned by the first angle, the last leads back to
\* the start, and the cosine falls through the first half: the first angle is the smallest one
Roots(c, s, M) ==
    /\ Len(c) = M /\ Len(s) = M /\ c[1] = S /\ s[1] = 0
    /\ \A i \in 1..M : LET j == IF i = M THEN 1 ELSE i + 1 IN
         IF M = 1 THEN TRUE ELSE
         /\ Near(Sq(c[i], c[2]) - Sq(s[i], s[2]), c[j] * (S \div 100), 60 * 2000)
         /\ Near(Sq(c[i], s[2]) + Sq(s[i], c[2]), s[j] * (S \div 100), 60 * 2000)
    /\ \A i \in 1..(M \div 2) : c[i + 1] < c[i]
\* a * b / g for 0 <= a, b and 0 < g < 2^30, a < 2^30
Mod(a, b) == a - b * (a \div b)
RECURSIVE QR(_, _, _)
QR(a, b, g) ==
    IF b = 0 THEN <<0, 0>>
    ELSE LET h == QR(a, b \div 2, g)
             odd == Mod(b, 2)
             sum == Mod(2 * h[2], g) + odd * Mod(a, g)
         IN <<2 * h[1] + (2 * h[2]) \div g + odd * (a \div g) + sum \div g, Mod(sum, g)>>
MulDiv(a, b, g) == QR(a, b, g)[1]
\* 700 + f is a geometric progression: (g + b)(g - a) = g g, that is b - a = a b / g
Centres(s) ==
    /\ Len(s.cs) = s.nm + 2 /\ Near(s.cs[1], s.fmin, 1) /\ Near(s.cs[s.nm + 2], s.fmax, 1)
    /\ \A i \in 2..(s.nm + 1) : LET g == 70000 + s.cs[i]  a == s.cs[i] - s.cs[i - 1]  b == s.cs[i + 1] - s.cs[i] IN
         a > 0 /\ b > 0 /\ Near(b - a, MulDiv(a, b, g), 4 + (a + b) \div 100000)
Bins(s) == 0..(s.n \div 2)
Lo(s, m) == s.cs[m]   Mid(s, m) == s.cs[m + 1]   Hi(s, m) == s.cs[m + 2]
\* frequencies are single-precision numbers that have been through a power: 3 parts in a million
Slack(s, m) == 3 + ((Hi(s, m) + 70000) \div 300) \div Max2(1, Min2(Mid(s, m) - Lo(s, m), Hi(s, m) - Mid(s, m)))
LeastW(s, m, k) == Max2(0, Least(k, s.n, s.sr, Lo(s, m), Mid(s, m), Hi(s, m)) - Slack(s, m))
MostW(s, m, k) == LET x == Most(k, s.n, s.sr, Lo(s, m), Mid(s, m), Hi(s, m)) IN
    IF x = 0 /\ (BinFreq(k, s.n, s.sr) < Lo(s, m) - 30 \/ BinFreq(k, s.n, s.sr) > Hi(s, m) + 30) THEN 0 ELSE Min2(W1, x + Slack(s, m))
\* sums of v[j] * weight of bin pos[j]; negative values swap the bounds
RECURSIVE SumLow(_, _, _, _)
SumLow(s, m, e, j) == IF j > Len(e.pos) THEN 0 ELSE e.vs[j] * (IF e.vs[j] >= 0 THEN LeastW(s, m, e.pos[j]) ELSE MostW(s, m, e.pos[j])) + SumLow(s, m, e, j + 1)
RECURSIVE SumHigh(_, _, _, _)
SumHigh(s, m, e, j) == IF j > Len(e.pos) THEN 0 ELSE e.vs[j] * (IF e.vs[j] >= 0 THEN MostW(s, m, e.pos[j]) ELSE LeastW(s, m, e.pos[j])) + SumHigh(s, m, e, j + 1)
RECURSIVE Mass(_, _)
Mass(v, j) == IF j > Len(v) THEN 0 ELSE Abs(v[j]) + Mass(v, j + 1)
BandsOk(s, e, low, high, unit) == Len(e.out) = s.nm /\ \A m \in 1..s.nm : e.out[m] > NAN /\ low[m] - unit <= e.out[m] /\ e.out[m] <= high[m] + unit
\* window value in 10^-5
Win(s, i) == (S - s.wc[Mod(i, s.n - 1) + 1]) \div 2
\* windowed sample in thousandths
Xw(s, e, i) == (e.xs[i] * Win(s, i - 1)) \div 100
RECURSIVE Re(_, _, _, _)
Re(s, x, k, i) == IF i > s.n THEN 0 ELSE (x[i] * (s.dc[Mod((i - 1) * k, s.n) + 1] \div 10)) \div 1000 + Re(s, x, k, i + 1)
RECURSIVE Im(_, _, _, _)
Im(s, x, k, i) == IF i > s.n THEN 0 ELSE (x[i] * (s.ds[Mod((i - 1) * k, s.n) + 1] \div 10)) \div 1000 + Im(s, x, k, i + 1)
\* powers in hundredths (inputs in 10^-4, reduced to hundredths)
Powers(s, e) == LET x == TLCEval([i \in 1..s.n |-> Xw(s, e, i)]) IN
    TLCEval([k \in Bins(s) |-> Power(Re(s, x, k, 1) \div 100, Im(s, x, k, 1) \div 100, s.n) \div 100])
RECURSIVE GramSum(_, _, _, _, _)
GramSum(s, m, P, k, most) == IF k > s.n \div 2 THEN 0 ELSE (P[k] * (IF most THEN MostW(s, m, k) ELSE LeastW(s, m, k))) \div W1 + GramSum(s, m, P, k + 1, most)
RECURSIVE Total(_, _, _)
Total(s, P, k) == IF k > s.n \div 2 THEN 0 ELSE P[k] + Total(s, P, k + 1)
IsPow2(n) == n \in {2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
Judge(s, e) ==
    CASE e.op = "centres" -> IF Centres(s) THEN {} ELSE {"MACHINERY-centres"}
      [] e.op = "tables" -> IF Roots(s.wc, s.ws, s.n - 1) /\ Roots(s.dc, s.ds, s.n) THEN {} ELSE {"MACHINERY-roots"}
      [] e.op = "mel" ->
           LET fits == e.slen >= s.n \div 2 + 1 /\ e.mlen = s.nm IN
           Clause(e.kept, "spectrum-changed") \cup
           (IF ~fits THEN Clause(e.ret # 0, "wrong-length-accepted")
            ELSE IF Lacks(s.n, s.sr, s.fmin, s.fmax) THEN Clause(e.ret # 0, "outside-of-spectrum-accepted")
            ELSE IF ~Holds(s.n, s.sr, s.fmin, s.fmax) THEN {}
            ELSE IF e.ret # 0 THEN {"refused"}
            ELSE Clause(BandsOk(s, e, TLCEval([m \in 1..s.nm |-> SumLow(s, m, e, 1)]), TLCEval([m \in 1..s.nm |-> SumHigh(s, m, e, 1)]), 1 + Mass(e.vs, 1) \div 100000), "bands"))
      [] e.op = "gram" ->
           LET fits == e.ilen = s.n /\ e.tlen >= s.n /\ e.tab = s.n \div 2 /\ s.nm <= s.n IN
           IF ~fits \/ Lacks(s.n, s.sr, s.fmin, s.fmax) THEN Clause(e.ret # 0, "gram-accepted")
           ELSE IF ~Holds(s.n, s.sr, s.fmin, s.fmax) \/ ~IsPow2(s.n) THEN {}
           ELSE IF e.ret # 0 THEN {"gram-refused"}
           ELSE LET P == Powers(s, e)  tot == Total(s, P, 0) IN
                Clause(BandsOk(s, e, TLCEval([m \in 1..s.nm |-> LET g == GramSum(s, m, P, 0, FALSE) IN g - g \div 100]), TLCEval([m \in 1..s.nm |-> LET g == GramSum(s, m, P, 0, TRUE) IN g + g \div 100]), s.n + 5 + tot \div 500), "gram")
      [] e.op = "power" ->
           IF e.ilen < e.n \div 2 + 1 \/ e.olen # e.n \div 2 + 1 THEN Clause(e.ret # 0, "power-wrong-length-accepted")
           ELSE IF e.ilen = e.n \div 2 + 1 /\ e.ret # 0 THEN {}          \* room for a whole frame may be asked for
           ELSE IF e.ret # 0 THEN {"power-refused"}
           ELSE Clause(Len(e.out) = e.olen /\ \A k \in 1..Len(e.out) : Near(e.out[k], (((e.vs[k] * e.vs[k] * 125) \div 2) \div e.n), 2 + (e.vs[k] * e.vs[k]) \div 20000), "power")
      [] e.op = "hann" -> IF e.ret # 0 THEN {"hann-refused"} ELSE Clause(Len(e.out) = s.n /\ \A i \in 1..s.n : Near(e.out[i], e.xs[i] * Win(s, i - 1), 2 + 2 * Abs(e.xs[i])), "window")
      [] OTHER -> {e.op}
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Sessions[sid].ev) /\ l' = l + 1 /\ UNCHANGED <<sid, st>>
         /\ LET bad == Judge(Sessions[sid], Sessions[sid].ev[l + 1])
            IN IF bad = {} THEN TRUE
               ELSE PrintT("MISMATCH " \o ToString(sid) \o " " \o ToString(l + 1) \o " " \o ToString(bad))
=============================================================================
