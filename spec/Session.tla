------------------------------ MODULE Session ------------------------------
(* Converted models next to each other.  A source has a revision (refitting  *)
(* it makes a new one); a converted model is a copy of its source as it was, *)
(* and nothing that happens later changes its answers.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* state: rev[s] current revision of every source, mod[m] what model m answers as
Convert(st, m, s) == [st EXCEPT !.mod = (m :> [s |-> s, r |-> st.rev[s]]) @@ st.mod]
Refit(st, s) == [st EXCEPT !.rev[s] = @ + 1]
Answers(st, m) == st.mod[m]
=============================================================================
