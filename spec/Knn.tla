-------------------------------- MODULE Knn --------------------------------
(* Nearest-neighbours model that grows on the device.                      *)
(*                                                                         *)
(* State of a model: nf (features), cap (capacity), k, items (sequence of  *)
(* [v |-> sequence of nf integers, label |-> integer]).                    *)
(* Distances are compared at integer resolution: the integer square root   *)
(* of the sum of squared differences.  Sums do not fit 32 bit integers,    *)
(* so they are pairs <<hi, lo>> meaning hi * 2^16 + lo, 0 <= lo < 2^16.    *)
EXTENDS Integers, Sequences, FiniteSets

B16 == 65536
Norm(p) == <<p[1] + p[2] \div B16, p[2] % B16>>
AddP(p, q) == Norm(<<p[1] + q[1], p[2] + q[2]>>)
LeqP(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
\* square of 0 <= d < 2^22
SquareP(d) == LET a == d \div 256  b == d % 256 IN Norm(<<a * a + (2 * a * b) \div 256, ((2 * a * b) % 256) * 256 + b * b>>)
AbsI(x) == IF x < 0 THEN -x ELSE x

RECURSIVE SumSqP(_, _, _)
SumSqP(a, b, i) == IF i > Len(a) THEN <<0, 0>> ELSE AddP(SquareP(AbsI(a[i] - b[i])), SumSqP(a, b, i + 1))

\* largest r in lo..hi-1 with r*r <= s
RECURSIVE RootIn(_, _, _)
RootIn(s, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF LeqP(SquareP(m), s) THEN RootIn(s, m, hi) ELSE RootIn(s, lo, m)
Root(s) == RootIn(s, 0, 2097152)
Dist(a, b) == Root(SumSqP(a, b, 1))

(* ---- prediction ---- *)
\* definition: some set S of k items, none outside nearer than one inside, elects the label
Elected(items, S, NL) ==
    LET v == [c \in 0..(NL - 1) |-> Cardinality({i \in S : items[i].label = c})]
    IN CHOOSE c \in 0..(NL - 1) : (\A d \in 0..(NL - 1) : v[d] <= v[c]) /\ (\A d \in 0..(c - 1) : v[d] < v[c])
Nearest(D, k) == {S \in SUBSET (DOMAIN D) : Cardinality(S) = k /\ \A i \in S : \A j \in (DOMAIN D) \ S : D[i] <= D[j]}
PredictDef(items, D, k, NL) == {Elected(items, S, NL) : S \in Nearest(D, k)}

\* the same set without enumerating subsets (used on recorded data; equality is checked in Knn_MC)
KthDist(D, k) == CHOOSE d \in {D[i] : i \in DOMAIN D} :
                     Cardinality({i \in DOMAIN D : D[i] < d}) < k /\ Cardinality({i \in DOMAIN D : D[i] <= d}) >= k
RECURSIVE SumOver(_, _, _)
SumOver(f, c, n) == IF c >= n THEN 0 ELSE f[c] + SumOver(f, c + 1, n)
Min2K(a, b) == IF a < b THEN a ELSE b
PredictSet(items, D, k, NL) ==
    LET dk == KthDist(D, k)
        base == [c \in 0..(NL - 1) |-> Cardinality({i \in DOMAIN D : D[i] < dk /\ items[i].label = c})]
        ties == [c \in 0..(NL - 1) |-> Cardinality({i \in DOMAIN D : D[i] = dk /\ items[i].label = c})]
        need == k - Cardinality({i \in DOMAIN D : D[i] < dk})
        Feasible(L) ==
            LET t == Min2K(ties[L], need)
                V == base[L] + t
                room == [c \in 0..(NL - 1) |-> IF c = L THEN 0 ELSE (IF c < L THEN V - 1 ELSE V) - base[c]]
            IN V > 0 /\ (\A c \in 0..(NL - 1) : room[c] >= 0)
               /\ SumOver([c \in 0..(NL - 1) |-> IF c = L THEN 0 ELSE Min2K(ties[c], room[c])], 0, NL) >= need - t
    IN {L \in 0..(NL - 1) : Feasible(L)}

(* ---- operations: [ok, model, answers] ---- *)
CanAdd(m, v) == Len(v) = m.nf /\ Len(m.items) < m.cap
AddItem(m, v, label) == IF CanAdd(m, v) THEN [m EXCEPT !.items = Append(@, [v |-> v, label |-> label])] ELSE m
CanPredict(m, x, dlen) == Len(x) = m.nf /\ dlen >= Len(m.items) /\ m.k <= Len(m.items)
Distances(m, x) == [i \in 1..Len(m.items) |-> Dist(m.items[i].v, x)]
=============================================================================
