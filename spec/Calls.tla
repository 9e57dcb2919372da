------------------------------- MODULE Calls -------------------------------
(* Calls of the C inference functions, used correctly and not.  A call names *)
(* a number of inputs, a number of outputs, and may be given a model of      *)
(* which a part is missing.  A wrong call reports an error in the way of its *)
(* function, writes nothing to the caller's outputs and changes nothing that *)
(* a later call can see.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* how each function reports, and what it wants of the outputs:
\*   class: a class, negative on error   error: 0, or an EmlError
\*   negerror: 0, or a negative EmlError   float: a number, NaN on error
Fn(ret, outs) == [ret |-> ret, outs |-> outs]
Fns == [
  trees_predict    |-> Fn("class", "none"),  trees_proba   |-> Fn("error", "exact"),
  trees_regress    |-> Fn("error", "any"),   trees_regress1 |-> Fn("float", "none"),
  gen_predict      |-> Fn("class", "none"),  gen_proba     |-> Fn("error", "exact"), gen_regress |-> Fn("float", "none"),
  net_predict      |-> Fn("class", "none"),  net_proba     |-> Fn("error", "exact"),
  net_regress      |-> Fn("error", "exact"), net_regress1  |-> Fn("float", "none"), net_infer |-> Fn("error", "none"),
  inline_infer     |-> Fn("error", "none"),
  knn_predict      |-> Fn("error", "fixed"), knn_add       |-> Fn("error", "none"),
  elliptic_predict |-> Fn("class", "fixed"), elliptic_gen  |-> Fn("float", "none"),
  bayes_predict    |-> Fn("class", "none"),
  mixture_log      |-> Fn("negerror", "fixed"), mixture_score |-> Fn("negerror", "fixed"), mixture_proba |-> Fn("negerror", "fixed")]
\* parts of which a function has no need
Unneeded(fn) == IF fn = "elliptic_predict" THEN {"nullout"} ELSE {}
\* functions for one kind of answer, given a model for the other
OtherKind(fn, m) == \/ fn \in {"trees_predict", "trees_proba"} /\ m.kind = "regressor"
                    \/ fn \in {"trees_regress", "trees_regress1"} /\ m.kind # "regressor"
\* classes only matter where classes are told
Matters(fn, part) == /\ part \notin Unneeded(fn)
                     /\ ~(part = "manyclasses" /\ fn \in {"trees_regress", "trees_regress1"})
Outputs(fn, m) == IF fn = "net_proba" /\ m.no = 1 THEN 2 ELSE m.no
OutsWrong(fn, m, on) == CASE Fns[fn].outs = "exact" -> on # Outputs(fn, m)
                          [] Fns[fn].outs = "any" -> on < 1
                          [] OTHER -> FALSE
\* items: how many a growing model has now
Wrong(fn, m, c, items) ==
    \/ c.n # m.nf
    \/ OutsWrong(fn, m, c.on)
    \/ c.part # "none" /\ Matters(fn, c.part)
    \/ OtherKind(fn, m)
    \/ fn = "net_regress1" /\ m.no # 1
    \/ fn = "knn_add" /\ items >= m.cap
    \/ fn = "knn_predict" /\ items < m.k
Reports(fn, ret) == CASE Fns[fn].ret = "class" -> ret < 0
                      [] Fns[fn].ret = "error" -> ret \in 1..5
                      [] Fns[fn].ret = "negerror" -> ret \in -5..-1
                      [] Fns[fn].ret = "float" -> ret = 1      \* 1: not a number
Succeeds(fn, ret) == CASE Fns[fn].ret = "class" -> ret >= 0
                       [] OTHER -> ret = 0
=============================================================================
