------------------------------ MODULE Forest ------------------------------
(* Tree ensembles: the source model, what conversion may turn it into, and *)
(* what inference must answer.                                             *)
(*                                                                         *)
(* Numbers are pairs <<whole, part>> (value = whole + part/SCALE with      *)
(* 0 <= part < SCALE), so that thresholds between two integers, the full   *)
(* int32 range and fine binary fractions are all compared exactly.         *)
(*                                                                         *)
(* A source tree is a sequence of nodes (node 1 is the root)               *)
(*    [leaf |-> FALSE, f |-> feature, th |-> number, l, r |-> node]        *)
(*    [leaf |-> TRUE,  v |-> value]                                        *)
(* where the value of a leaf is a distribution over classes (sequence of   *)
(* scaled integers) or, for regression, a one-element sequence.            *)
EXTENDS Integers, Sequences, FiniteSets

LE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
LT(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

(* ---- the source rule: less than or equal goes left ---- *)
RECURSIVE LeafOf(_, _, _)
LeafOf(tree, x, n) ==
    IF tree[n].leaf THEN n
    ELSE LeafOf(tree, x, IF LE(x[tree[n].f + 1], tree[n].th) THEN tree[n].l ELSE tree[n].r)

ValueOf(tree, x) == tree[LeafOf(tree, x, 1)].v

(* first index of the largest element (0-based class number) *)
ArgMax(s) == (CHOOSE i \in DOMAIN s : (\A j \in DOMAIN s : s[j] <= s[i])
                                   /\ (\A j \in DOMAIN s : j < i => s[j] < s[i])) - 1

(* ---- hard voting ---- *)
TreeClass(tree, x) == ArgMax(ValueOf(tree, x))
Votes(forest, x, nc) == [c \in 1..nc |-> Cardinality({t \in DOMAIN forest : TreeClass(forest[t], x) = c - 1})]
HardClass(forest, x, nc) == ArgMax(Votes(forest, x, nc))

(* ---- soft voting: every proportion p (scaled by one) is quantised to one of 2^bits - 1 levels and
   stored in a byte; Byte is the set of bytes allowed for it.  half = steps may round either way. ---- *)
Pow2(n) == 2^n
ByteOK(p, one, bits, b) ==
    LET n == Pow2(bits) - 2          \* intervals between the 2^bits - 1 levels
        \* k = nearest level: |p*n - k*one| <= one/2
        ks == {k \in 0..n : 2 * (IF p*n >= k*one THEN p*n - k*one ELSE k*one - p*n) <= one}
    IN \E k \in ks : b * n <= k * 255 /\ k * 255 < (b + 1) * n     \* b = floor(255 k / n)

\* the same as bounds: lowest and highest nearest level, its byte rounded down or up
LevelLo(p, one, n) == (2 * p * n - one + 2 * one - 1) \div (2 * one)
LevelHi(p, one, n) == (2 * p * n + one) \div (2 * one)
LevelByteLo(p, one, bits) == LET n == Pow2(bits) - 2 IN (LevelLo(p, one, n) * 255) \div n
LevelByteHi(p, one, bits) == LET n == Pow2(bits) - 2 IN (LevelHi(p, one, n) * 255 + n - 1) \div n

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)

(* ---- the compiled form: decision nodes with relative jumps, shared leaf table ---- *)
(* node: [f, lt |-> number, l, r]; "value < lt" goes left; a child c >= 0 is a jump forward,
   c < 0 is leaf -c-1 *)
RECURSIVE FlatLeaf(_, _, _)
FlatLeaf(nodes, x, i) ==                       \* i: 0-based node index
    LET nd == nodes[i + 1]
        c == IF LT(x[nd.f + 1], nd.lt) THEN nd.l ELSE nd.r
    IN IF c < 0 THEN -c - 1 ELSE FlatLeaf(nodes, x, i + c)

(* same nodes, thresholds as exported (value <= threshold goes left) *)
RECURSIVE FlatLeafLE(_, _, _, _)
FlatLeafLE(nodes, x, i, fuel) ==
    IF fuel = 0 \/ i < 0 \/ i >= Len(nodes) THEN -1 ELSE
    LET nd == nodes[i + 1]
        c == IF LE(x[nd.f + 1], nd.th) THEN nd.l ELSE nd.r
    IN IF c < 0 THEN -c - 1 ELSE FlatLeafLE(nodes, x, i + c, fuel - 1)

WellFormed(nodes, roots, nleaves) ==
    /\ \A i \in 1..Len(roots) : roots[i] >= 0 /\ roots[i] < Len(nodes)
    /\ \A i \in 1..Len(nodes) : \A c \in {nodes[i].l, nodes[i].r} :
          IF c >= 0 THEN c >= 1 /\ (i - 1) + c < Len(nodes) ELSE -c - 1 < nleaves

(* integer features: x <= th  iff  x < floor(th) + 1 *)
IntLT(th) == <<th[1] + 1, 0>>

(* ---- compilation of one tree to the flat form (the design) ----
   decision nodes keep their order, leaves are numbered in order of appearance as children *)
Decisions(tree) == SelectSeq([i \in 1..Len(tree) |-> i], LAMBDA i : ~tree[i].leaf)
IndexIn(s, v) == CHOOSE i \in DOMAIN s : s[i] = v
RECURSIVE Collect(_, _, _)
Collect(forest, t, acc) ==      \* distinct leaf values, in order of first appearance
    IF t > Len(forest) THEN acc
    ELSE LET leaves == SelectSeq([i \in 1..Len(forest[t]) |-> forest[t][i]], LAMBDA n : n.leaf)
             RECURSIVE Add(_, _)
             Add(i, a) == IF i > Len(leaves) THEN a
                          ELSE Add(i + 1, IF \E j \in DOMAIN a : a[j] = leaves[i].v THEN a ELSE Append(a, leaves[i].v))
         IN Collect(forest, t + 1, Add(1, acc))

RECURSIVE CompileFrom(_, _, _, _, _)
CompileFrom(forest, leaves, t, nodes, roots) ==
    IF t > Len(forest) THEN [nodes |-> nodes, roots |-> roots, leaves |-> leaves]
    ELSE LET tree == forest[t]
             ds == Decisions(tree)
             leafref(i) == -(IndexIn(leaves, tree[i].v) - 1) - 1
             ref(from, i) == IF tree[i].leaf THEN leafref(i) ELSE IndexIn(ds, i) - IndexIn(ds, from)
             body == IF ds = <<>>      \* single leaf: a dummy decision node with both sides at the leaf
                     THEN << [f |-> 0, lt |-> <<0, 0>>, l |-> leafref(1), r |-> leafref(1)] >>
                     ELSE [k \in 1..Len(ds) |->
                             [f |-> tree[ds[k]].f, lt |-> IntLT(tree[ds[k]].th),
                              l |-> ref(ds[k], tree[ds[k]].l), r |-> ref(ds[k], tree[ds[k]].r)]]
         IN CompileFrom(forest, leaves, t + 1, nodes \o body, Append(roots, Len(nodes)))
Compile(forest) == CompileFrom(forest, Collect(forest, 1, <<>>), 1, <<>>, <<>>)
=============================================================================
