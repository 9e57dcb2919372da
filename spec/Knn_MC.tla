------------------------------- MODULE Knn_MC -------------------------------
(* Design check of the growing model and generator of its histories.       *)
EXTENDS Knn, TLC, Json
CONSTANTS CAP, K, DEPTH, VALS, EMIT, NLAB
VARIABLES m, accepted, h
vars == <<m, accepted, h>>
Model0 == [nf |-> 1, cap |-> CAP, k |-> K, items |-> <<>>]
Labels == 0..(NLAB - 1)
Init == m = Model0 /\ accepted = <<>> /\ h = <<>>
Add(v, lab) == /\ m' = AddItem(m, v, lab)
               /\ accepted' = IF CanAdd(m, v) THEN Append(accepted, <<v, lab>>) ELSE accepted
               /\ h' = Append(h, [op |-> "add", v |-> v, label |-> lab])
Predict(x, d) == /\ UNCHANGED <<m, accepted>>
                 /\ h' = Append(h, [op |-> "predict", v |-> x, d |-> d])
Next == /\ Len(h) < DEPTH
        /\ \/ \E v \in VALS, lab \in Labels : Add(<<v>>, lab)
           \/ \E lab \in {0} : Add(<<>>, lab) \/ Add(<<1, 2>>, lab)
           \/ \E v \in VALS, d \in {0, CAP} : Predict(<<v>>, d)
           \/ Predict(<<>>, CAP) \/ Predict(<<0, 1>>, CAP)
Emit == (EMIT /\ Len(h) = DEPTH) => PrintT("BEH " \o ToJson(h))
\* the model holds exactly the accepted items, in order
Holds == /\ Len(m.items) = Len(accepted) /\ Len(m.items) <= CAP
         /\ \A i \in 1..Len(accepted) : m.items[i].v = accepted[i][1] /\ m.items[i].label = accepted[i][2]
Grows == [][ \E s \in Seq({[v |-> <<v>>, label |-> c] : v \in VALS, c \in Labels}) \cup {<<>>} : m'.items = m.items \/ Len(m'.items) = Len(m.items) + 1 ]_vars
\* the efficient rule equals the definition, and every admissible query has an answer
SameRule == \A x \in {-1} \cup VALS : LET D == Distances(m, <<x>>) IN
    CanPredict(m, <<x>>, CAP) =>
        /\ PredictSet(m.items, D, m.k, NLAB) = PredictDef(m.items, D, m.k, NLAB)
        /\ PredictSet(m.items, D, m.k, NLAB) # {}
View == <<m, accepted, Len(h)>>
ASSUME \A d \in {0, 1, 255, 256, 257, 1000, 40000} : SquareP(d) = Norm(<<0, (d % 40000) * (d % 40000)>>) \/ d = 40000
ASSUME SquareP(65535) = <<65534, 1>>
ASSUME \A s \in 0..300 : LET r == Root(<<0, s>>) IN r * r <= s /\ (r + 1) * (r + 1) > s
ASSUME Root(<<65534, 1>>) = 65535 /\ Root(<<65534, 0>>) = 65534
=============================================================================
