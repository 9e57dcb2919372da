----------------------------- MODULE Forest_MC -----------------------------
(* Design check: the source walker and the compiled walker run in lockstep *)
(* over every forest of a bounded family and every integer input; voting   *)
(* proceeds tree by tree.                                                  *)
EXTENDS Forest, TLC
CONSTANTS XMAX, NC, NT, SHAPES
Wholes == -1..1
Ths == {<<w, p>> : w \in Wholes, p \in {0, 1}}         \* integers and halves (SCALE = 2)
Xs == {<<v, 0>> : v \in -XMAX..XMAX}
Dists == IF NC = 2 THEN {<<2, 0>>, <<1, 1>>, <<0, 2>>} ELSE {<<2, 0, 0>>, <<0, 1, 1>>, <<0, 0, 2>>}
L(v) == [leaf |-> TRUE, v |-> v]
N(f, th, l, r) == [leaf |-> FALSE, f |-> f, th |-> th, l |-> l, r |-> r]
\* shapes: 1 leaf, stump, left-deep, right-deep
Trees1 == {<<L(a)>> : a \in Dists}
Trees2 == {<<N(f, t, 2, 3), L(a), L(b)>> : f \in {0, 1}, t \in Ths, a \in Dists, b \in Dists}
Trees3 == {<<N(0, t, 2, 5), N(1, u, 3, 4), L(a), L(b), L(a)>> : t \in Ths, u \in Ths, a \in Dists, b \in Dists}
Trees4 == {<<N(1, t, 2, 3), L(a), N(0, u, 4, 5), L(b), L(a)>> : t \in Ths, u \in Ths, a \in Dists, b \in Dists}
Trees == UNION {IF 1 \in SHAPES THEN Trees1 ELSE {}, IF 2 \in SHAPES THEN Trees2 ELSE {},
                IF 3 \in SHAPES THEN Trees3 ELSE {}, IF 4 \in SHAPES THEN Trees4 ELSE {}}
VARIABLES forest, x, t, n, fi, votes, phase
vars == <<forest, x, t, n, fi, votes, phase>>
Flat == Compile(forest)
Init == /\ forest \in [1..NT -> Trees] /\ x \in Xs \X Xs
        /\ t = 1 /\ n = 1 /\ fi = Compile(forest).roots[1] /\ votes = [c \in 1..NC |-> 0] /\ phase = "walk"
Descend == /\ phase = "walk" /\ ~forest[t][n].leaf
           /\ n' = (IF LE(x[forest[t][n].f + 1], forest[t][n].th) THEN forest[t][n].l ELSE forest[t][n].r)
           /\ fi' = (LET nd == Flat.nodes[fi + 1]
                         c == IF LT(x[nd.f + 1], nd.lt) THEN nd.l ELSE nd.r
                     IN IF c < 0 THEN c ELSE fi + c)
           /\ UNCHANGED <<forest, x, t, votes, phase>>
\* a single-leaf tree costs the compiled walker one dummy step
Settle == /\ phase = "walk" /\ forest[t][n].leaf /\ fi >= 0
          /\ fi' = (LET nd == Flat.nodes[fi + 1] IN IF LT(x[nd.f + 1], nd.lt) THEN nd.l ELSE nd.r)
          /\ UNCHANGED <<forest, x, t, n, votes, phase>>
Vote == /\ phase = "walk" /\ forest[t][n].leaf /\ fi < 0
        /\ votes' = [votes EXCEPT ![ArgMax(Flat.leaves[-fi]) + 1] = @ + 1]
        /\ IF t < Len(forest)
           THEN t' = t + 1 /\ n' = 1 /\ fi' = Flat.roots[t + 1] /\ phase' = phase
           ELSE t' = t /\ n' = n /\ fi' = fi /\ phase' = "done"
        /\ UNCHANGED <<forest, x>>
Next == Descend \/ Settle \/ Vote
\* the compiled walker is at a leaf iff the source walker is (up to the dummy node), and it is the same leaf
SameLeaf == (phase = "walk" /\ fi < 0) => forest[t][n].leaf /\ Flat.leaves[-fi] = forest[t][n].v
SameNode == (phase = "walk" /\ ~forest[t][n].leaf) => fi >= 0 /\ Flat.nodes[fi + 1].f = forest[t][n].f
SameAnswer == phase = "done" => votes = Votes(forest, x, NC)
\* the flat form is well formed and the recursive definition of it agrees
FlatOK == t = 1 /\ n = 1 /\ phase = "walk" =>
            /\ WellFormed(Flat.nodes, Flat.roots, Len(Flat.leaves))
            /\ \A k \in 1..Len(forest) : Flat.leaves[FlatLeaf(Flat.nodes, x, Flat.roots[k]) + 1] = ValueOf(forest[k], x)
Terminates == <>(phase = "done")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the constant for integer features means the same as the source comparison
ASSUME \A th \in Ths : \A v \in Xs : LE(v, th) <=> LT(v, IntLT(th))
\* leaf proportions: a byte exists for every proportion and every number of bits
ASSUME \A bits \in 2..8 : \A p \in 0..16 : \E b \in 0..255 : ByteOK(p, 16, bits, b)
============================================================================
