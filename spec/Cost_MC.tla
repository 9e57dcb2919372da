----------------------------- MODULE Cost_MC -----------------------------
(* Over a bounded family of forests: the figures defined on the source are *)
(* those of the compiled form, and the walker's steps are counted right.   *)
EXTENDS Cost, TLC
CONSTANTS NT, SHAPES
Ths == {<<-1, 1>>, <<0, 0>>}
Vals == {<<2, 0>>, <<1, 1>>, <<0, 2>>}
L(v) == [leaf |-> TRUE, v |-> v]
N(f, th, l, r) == [leaf |-> FALSE, f |-> f, th |-> th, l |-> l, r |-> r]
Shape(k) == CASE k = 1 -> {<<L(a)>> : a \in Vals}
              [] k = 2 -> {<<N(0, t, 2, 3), L(a), L(b)>> : t \in Ths, a \in Vals, b \in Vals}
              [] k = 3 -> {<<N(0, t, 2, 5), N(1, u, 3, 4), L(a), L(b), L(a)>> : t \in Ths, u \in Ths, a \in Vals, b \in Vals}
              [] k = 4 -> {<<N(1, t, 2, 3), L(a), N(0, u, 4, 5), L(b), L(<<1, 1>>)>> : t \in Ths, u \in Ths, a \in Vals, b \in Vals}
Trees == UNION {Shape(k) : k \in SHAPES}
VARIABLES forest, x, t, n, steps, left
vars == <<forest, x, t, n, steps, left>>
Init == /\ forest \in [1..NT -> Trees] /\ x \in ({-1, 0, 1} \X {0}) \X ({-1, 1} \X {0})
        /\ t = 1 /\ n = 1 /\ steps = 0 /\ left = VisitedAll(forest, <<x>>, <<1>>)
Step == /\ t <= NT /\ steps' = steps + 1 /\ left' = left - 1
        /\ IF forest[t][n].leaf THEN t' = t + 1 /\ n' = 1
           ELSE t' = t /\ n' = (IF LE(x[forest[t][n].f + 1], forest[t][n].th) THEN forest[t][n].l ELSE forest[t][n].r)
        /\ UNCHANGED <<forest, x>>
Next == Step
Counted == (t > NT) => left = 0 /\ steps = VisitedAll(forest, <<x>>, <<1>>)
Bounded == steps <= DepthSum(forest) + NT
Figures == steps = 0 => LET f == Compile(forest) IN
    /\ Len(f.nodes) = NodeCount(forest) /\ Len(f.roots) = NT
    /\ Len(f.leaves) = Cardinality(LeafKeys(forest, LAMBDA v : v))
    /\ NodeCount(forest) >= NT /\ DepthDiff(forest) >= 0 /\ DepthDiff(forest) <= DepthSum(forest)
=============================================================================
