------------------------------ MODULE Cost ------------------------------
(* Cost figures of a tree ensemble, defined on the source trees, and the   *)
(* same figures read off the compiled form.                                *)
EXTENDS Forest
\* decision nodes of the compiled model: a tree that is a single leaf takes one (dummy) node
TreeNodes(tree) == IF tree[1].leaf THEN 1 ELSE Cardinality({i \in DOMAIN tree : ~tree[i].leaf})
RECURSIVE SumT(_, _, _)
SumT(f(_), i, n) == IF i > n THEN 0 ELSE f(i) + SumT(f, i + 1, n)
NodeCount(forest) == SumT(LAMBDA t : TreeNodes(forest[t]), 1, Len(forest))
\* key: what two leaves share when they are stored once
LeafKeys(forest, key(_)) == UNION {{key(forest[t][i].v) : i \in {j \in DOMAIN forest[t] : forest[t][j].leaf}} : t \in DOMAIN forest}
RECURSIVE DepthFrom(_, _)
DepthFrom(tree, n) == IF tree[n].leaf THEN 0 ELSE
    LET a == DepthFrom(tree, tree[n].l) b == DepthFrom(tree, tree[n].r) IN 1 + (IF a > b THEN a ELSE b)
Depth(tree) == DepthFrom(tree, 1)
DepthSum(forest) == SumT(LAMBDA t : Depth(forest[t]), 1, Len(forest))
DepthDiff(forest) == LET ds == {Depth(forest[t]) : t \in DOMAIN forest}
                     IN (CHOOSE d \in ds : \A e \in ds : e <= d) - (CHOOSE d \in ds : \A e \in ds : e >= d)
\* nodes visited by one input in one tree, the leaf included
RECURSIVE Visited(_, _, _)
Visited(tree, x, n) == IF tree[n].leaf THEN 1
    ELSE 1 + Visited(tree, x, IF LE(x[tree[n].f + 1], tree[n].th) THEN tree[n].l ELSE tree[n].r)
\* over rows X[q], each N[q] times
VisitedAll(forest, X, N) == SumT(LAMBDA q : N[q] * SumT(LAMBDA t : Visited(forest[t], X[q], 1), 1, Len(forest)), 1, Len(X))
=============================================================================
