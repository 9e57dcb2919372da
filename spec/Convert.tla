------------------------------ MODULE Convert ------------------------------
(* What convert() may do with a source model and a choice of options.        *)
(* A configuration is a record of option values (strings); its family names  *)
(* the sort of model.  Must(cfg): the documented combinations, which have to *)
(* convert and predict.  Never(cfg): those for which no model can be         *)
(* faithful, which have to be refused.  Anything else may be refused, at     *)
(* conversion or at the first use, or else has to be faithful.               *)
EXTENDS Integers, Sequences, FiniteSets
Families == {"trees", "knn", "mlp", "keras", "bayes", "envelope", "mixture", "other"}
\* option values; the first of each is the default
Options(f) == CASE
  f = "trees" -> [est |-> <<"dt", "rf", "et">>, task |-> <<"cls", "reg">>, method |-> <<"none", "inline", "loadable", "bogus">>,
      dtype |-> <<"none", "int16_t", "float", "double", "int", "int8_t", "uint8_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "float16", "int8", "bogus">>,
      bits |-> <<"none", "0", "1", "2", "3", "4", "6", "8", "9", "16", "32", "-1">>, classes |-> <<"3", "1", "2", "30", "31", "128", "200", "300">>,
      features |-> <<"3", "1", "127", "128", "300">>, via |-> <<"plain", "sub", "subnokind", "multi", "wrongkind">>, size |-> <<"small", "far", "farther">>] []
  f = "knn" -> [metric |-> <<"default", "euclidean", "manhattan", "chebyshev", "cosine", "p1", "callable">>, weights |-> <<"uniform", "distance", "callable">>,
      algorithm |-> <<"auto", "brute", "kd_tree", "ball_tree">>, classes |-> <<"2", "3", "9", "10", "11", "40">>, k |-> <<"3", "1", "20">>,
      data |-> <<"small", "wide", "outside", "sparse">>, labels |-> <<"0..", "10..", "text">>, method |-> <<"none", "loadable", "inline", "bogus">>,
      items |-> <<"60", "300", "33000">>, via |-> <<"plain", "sub", "subnokind", "multi", "wrongkind">>] []
  f = "mlp" -> [task |-> <<"cls", "reg", "multilabel">>, outputs |-> <<"3", "1", "2", "12">>, act |-> <<"relu", "tanh", "logistic", "identity">>, hidden |-> <<"5", "none", "4+3", "130">>,
      method |-> <<"none", "loadable", "inline", "bogus">>, returns |-> <<"matching", "default", "classifier", "regressor", "bogus">>, via |-> <<"plain", "sub", "subnokind", "wrongkind", "fixedpoint">>] []
  f = "keras" -> [layers |-> <<"custom">>, method |-> <<"none", "loadable", "inline", "bogus">>, returns |-> <<"default", "regressor">>] []
  f = "bayes" -> [classes |-> <<"3", "2", "1", "10", "11">>, priors |-> <<"even", "fitted", "given">>, scale |-> <<"normal", "large", "small", "huge", "tiny">>, features |-> <<"3", "1", "40">>,
      method |-> <<"none", "loadable", "inline", "bogus">>, via |-> <<"plain", "sub", "subnokind", "wrongkind">>] []
  f = "envelope" -> [method |-> <<"inline", "none", "loadable", "bogus">>, contamination |-> <<"0.1", "0.01", "0.4">>, centered |-> <<"no", "yes">>, features |-> <<"2", "1", "6">>, dtype |-> <<"none", "float", "int16_t">>, via |-> <<"plain", "sub", "subnokind", "wrongkind">>] []
  f = "mixture" -> [est |-> <<"gmm", "bgmm">>, cov |-> <<"full", "tied", "diag", "spherical">>, method |-> <<"none", "loadable", "inline", "bogus">>, features |-> <<"2", "1", "5">>, components |-> <<"3", "1", "2">>, dtype |-> <<"none", "float">>, via |-> <<"plain", "sub", "subnokind", "wrongkind">>] []
  f = "other" -> [what |-> <<"gradient-boosting", "svc", "linear-svc", "logistic", "linear", "ridge", "isolation-forest", "knn-regressor", "radius-neighbors", "nearest-neighbors", "kmeans", "multinomial-nb", "bernoulli-nb", "adaboost", "bagging", "pipeline",
      "grid-search", "extra-tree", "hist-boosting", "dummy", "one-class-svm", "lof", "voting", "calibrated", "empirical-covariance", "min-cov-det", "onevsrest", "none", "text", "number", "class", "bogus-kind",
      "unfitted-trees", "unfitted-forest", "unfitted-knn", "unfitted-mlp", "unfitted-bayes", "unfitted-envelope", "unfitted-mixture">>]
Default(f) == [o \in DOMAIN Options(f) |-> Options(f)[o][1]]
Values(f, o) == {Options(f)[o][i] : i \in DOMAIN Options(f)[o]}
\* ---- tokens of a Keras model: a list of layers
Acts == {"relu", "linear", "sigmoid", "tanh", "softmax"}
Dense(t) == t \in {"dense:" \o a : a \in Acts \cup {"elu", "gelu", "leaky", "exponential", "own-relu", "nobias"}}
PlainDense(t) == t \in {"dense:" \o a : a \in Acts}
Stand(t) == t \in {"act:" \o a : a \in Acts} \cup {"relu", "softmax"}
Nothing(t) == t \in {"dropout", "act:linear"}
ActOf(t) == IF t \in {"relu", "softmax"} THEN t ELSE CHOOSE a \in Acts : t = "act:" \o a \/ t = "dense:" \o a
\* the pending activation of the last dense layer, or "bad" where the C network has no such thing
RECURSIVE Pending(_, _)
Pending(ts, i) == IF i = 0 THEN "none" ELSE
   LET p == Pending(ts, i - 1)  t == ts[i] IN
   IF p = "bad" THEN "bad" ELSE IF PlainDense(t) THEN ActOf(t) ELSE IF Nothing(t) THEN p
   ELSE IF Stand(t) /\ p = "linear" THEN ActOf(t) ELSE "bad"
NDense(ts) == Cardinality({i \in DOMAIN ts : Dense(ts[i])})
Representable(ts) == Pending(ts, Len(ts)) \notin {"bad", "none"}
\* ---- rules
Loadable(f, c) == c.method = "loadable" \/ (c.method = "none" /\ f \notin {"trees", "envelope"})
Soft == {"2", "3", "4", "6", "8"}
Must(f, c) == CASE
  f = "trees" -> /\ c.via \in {"plain", "sub"} /\ c.method \in {"none", "inline", "loadable"}
                 /\ c.dtype \in {"none", "int16_t", "float", "int8_t", "uint8_t", "uint16_t", "int32_t", "int8"}
                 /\ c.method = "loadable" => c.dtype \in {"none", "int16_t"} /\ c.features \in {"3", "1", "127"} /\ c.classes \in {"2", "3", "30"}
                 /\ c.bits \in (IF c.task = "cls" THEN {"none", "0", "1"} \cup Soft ELSE {"none"})
                 /\ c.classes # "1" /\ c.size # "farther" /\ (c.size = "far" => c.method = "loadable")
  [] f = "knn" -> /\ c.metric \in {"default", "euclidean"} /\ c.weights = "uniform" /\ c.algorithm \in {"auto", "brute"} /\ c.classes \in {"2", "3", "9", "10"}
                  /\ c.data \in {"small", "wide"} /\ c.labels = "0.." /\ c.method \in {"none", "loadable"} /\ c.items \in {"60", "300"} /\ c.via \in {"plain", "sub"}
  [] f = "mlp" -> /\ c.task \in {"cls", "reg"} /\ c.outputs \in (IF c.task = "cls" THEN {"2", "3", "12"} ELSE {"1"}) /\ c.hidden # "none" /\ c.via \in {"plain", "sub"}
                  /\ c.method \in {"none", "loadable"} \cup (IF c.task = "cls" THEN {"inline"} ELSE {})
                  /\ c.returns \in (IF c.task = "cls" THEN {"matching", "default", "classifier"} ELSE {"matching", "regressor"})
  [] f = "keras" -> /\ Representable(c.tokens) /\ NDense(c.tokens) >= 2 /\ c.input = "flat"
                    /\ c.method \in {"none", "loadable"} \cup (IF c.returns = "default" THEN {"inline"} ELSE {})
                    /\ c.returns = "regressor" => c.outputs = "1"
                    /\ c.tokens[1] # "act:linear"          \* nothing to activate yet: may be refused
  [] f = "bayes" -> c.classes \in {"2", "3", "10"} /\ c.scale \in {"normal", "large", "small"} /\ c.method \in {"none", "loadable"} /\ c.via \in {"plain", "sub"}
  [] f = "envelope" -> c.method = "inline" /\ c.dtype \in {"none", "float"} /\ c.via \in {"plain", "sub"}
  [] f = "mixture" -> c.method \in {"none", "loadable"} /\ c.via \in {"plain", "sub"}
  [] f = "other" -> FALSE
\* no possible meaning
Never(f, c) == \/ f = "other"
               \/ f # "other" /\ c.method = "bogus"
               \/ f = "trees" /\ (c.dtype = "bogus" \/ c.bits = "-1" \/ c.via = "wrongkind")
               \/ f = "knn" /\ c.via = "wrongkind"
               \/ f \in {"bayes", "envelope", "mixture", "mlp"} /\ c.via = "wrongkind"
               \/ f = "mlp" /\ c.returns = "bogus"
\* how far a number may be from that of the source model: absolute, in millionths, and a divisor of the magnitude (0: none)
Tol(f, c) == CASE f = "trees" /\ c.task = "cls" -> <<(IF c.bits = "2" THEN 250000 ELSE IF c.bits = "3" THEN 84000 ELSE IF c.bits = "4" THEN 37000 ELSE IF c.bits = "6" THEN 13000 ELSE 5000), 0>>
  [] f = "trees" -> <<5, 100000>> [] f \in {"mlp", "keras"} -> <<200, 5000>> [] f = "envelope" -> <<2000, 500>> [] f = "mixture" -> <<2000, 1000>> [] OTHER -> <<10, 10000>>
AbsC(x) == IF x < 0 THEN -x ELSE x
Close(t, a, b) == a = b \/ (a > -2147483000 /\ b > -2147483000 /\ AbsC(a \div 2 - b \div 2) <= t[1] \div 2 + 1 + (IF t[2] = 0 THEN 0 ELSE (AbsC(a) \div t[2]) \div 2))
=============================================================================
