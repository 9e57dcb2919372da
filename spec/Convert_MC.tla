----------------------------- MODULE Convert_MC -----------------------------
(* A user starts from the defaults and changes options, or stacks layers.    *)
EXTENDS Convert, TLC, Json
CONSTANTS FAMS, CHANGES, LAYERS, EMIT
VARIABLES fam, cfg, n
vars == <<fam, cfg, n>>
Tokens == {"dense:" \o a : a \in Acts \cup {"elu", "own-relu", "nobias", "leaky"}} \cup {"act:" \o a : a \in Acts \cup {"elu"}}
          \cup {"relu", "relu:max", "relu:slope", "relu:threshold", "softmax", "softmax:axis0", "dropout", "batchnorm", "flatten", "leaky", "prelu", "noise", "l1"}
KDefault == [layers |-> "custom", method |-> "none", returns |-> "default", input |-> "flat", outputs |-> "3", tokens |-> <<>>]
Init == n = 0 /\ fam \in FAMS /\ cfg = IF fam = "keras" THEN KDefault ELSE Default(fam)
Change == /\ fam # "keras" /\ n < CHANGES /\ n' = n + 1 /\ UNCHANGED fam
          /\ \E o \in DOMAIN cfg : \E v \in Values(fam, o) \ {cfg[o]} : cfg' = [cfg EXCEPT ![o] = v]
Stack == /\ fam = "keras" /\ n < LAYERS /\ n' = n + 1 /\ UNCHANGED fam
         /\ \E t \in Tokens : cfg' = [cfg EXCEPT !.tokens = Append(@, t)]
Next == Change \/ Stack
\* the rules do not contradict themselves, defaults are supported
Consistent == ~(Must(fam, cfg) /\ Never(fam, cfg))
DefaultWorks == n = 0 /\ fam \notin {"keras", "other"} => Must(fam, cfg)
\* the meaning of a list of layers, applied one after the other to one number, against the merged network the C code has
F(a, x) == CASE a = "relu" -> (IF x > 0 THEN x ELSE 0) [] a = "linear" -> x [] a = "sigmoid" -> 1000 + x \div 2 [] a = "tanh" -> x \div 3 [] a = "softmax" -> 7 + x \div 5
D(i, x) == 2 * x - 50 + i
RECURSIVE Meaning(_, _, _)
Meaning(ts, i, x) == IF i > Len(ts) THEN x ELSE
    Meaning(ts, i + 1, IF PlainDense(ts[i]) THEN F(ActOf(ts[i]), D(i, x)) ELSE IF ts[i] = "dropout" THEN x ELSE F(ActOf(ts[i]), x))
\* merged: dense layers (position, activation)
RECURSIVE Merge(_, _, _)
Merge(ts, i, acc) == IF i > Len(ts) THEN acc ELSE
    Merge(ts, i + 1, IF PlainDense(ts[i]) THEN Append(acc, <<i, ActOf(ts[i])>>) ELSE IF Nothing(ts[i]) THEN acc
                     ELSE [acc EXCEPT ![Len(acc)] = <<acc[Len(acc)][1], ActOf(ts[i])>>])
RECURSIVE Run(_, _, _)
Run(m, i, x) == IF i > Len(m) THEN x ELSE Run(m, i + 1, F(m[i][2], D(m[i][1], x)))
Merged == fam = "keras" /\ Representable(cfg.tokens) => \A x \in {-300, -1, 0, 40, 999} : Meaning(cfg.tokens, 1, x) = Run(Merge(cfg.tokens, 1, <<>>), 1, x)
Emit == IF EMIT THEN PrintT("BEH " \o ToJson([fam |-> fam, cfg |-> cfg, n |-> n])) ELSE TRUE
=============================================================================
