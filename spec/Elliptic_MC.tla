---------------------------- MODULE Elliptic_MC ----------------------------
(* The loop of the library (columns of the precision matrix, accumulated row *)
(* by row) against the double sum, and the three verdicts against each other *)
EXTENDS Gauss
CONSTANTS PMAX, DMAX
VARIABLES P, x, m, off, i, acc, j, dist
vars == <<P, x, m, off, i, acc, j, dist>>
Sym == {M \in [1..2 -> [1..2 -> 0..PMAX]] : M[1][2] = M[2][1]}
Init == P \in Sym /\ x \in [1..2 -> 0..DMAX] /\ m \in [1..2 -> 0..1] /\ off \in -2..0 /\ i = 1 /\ j = 1 /\ acc = 0 /\ dist = 0
Inner == i <= 2 /\ j <= 2 /\ acc' = acc + P[j][i] * (x[j] - m[j]) /\ j' = j + 1 /\ UNCHANGED <<P, x, m, off, i, dist>>
Outer == i <= 2 /\ j = 3 /\ dist' = dist + acc * (x[i] - m[i]) /\ i' = i + 1 /\ j' = 1 /\ acc' = 0 /\ UNCHANGED <<P, x, m, off>>
Next == Inner \/ Outer
Done == i = 3
Result == Done => dist = Mahalanobis(P, m, x)
AtLocation == x = m => Mahalanobis(P, m, x) = 0
Reflected == Mahalanobis(P, m, x) = Mahalanobis(P, x, m)
Verdicts == Done => (Outlier(dist, off) <=> Label(dist, off) = -1) /\ (-dist = off => Label(dist, off) = 1)
=============================================================================
