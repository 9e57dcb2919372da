----------------------------- MODULE Session_MC -----------------------------
(* All interleavings of converting, using, saving, refitting and moving to    *)
(* another working directory, over models of equal kinds.  Implementation    *)
(* variables: programs are files (store), which conversion (or first use)    *)
(* writes and every use runs.  PLACE = "own": a place per model; the model   *)
(* then refines Session.  Histories are emitted for replay into the code.    *)
EXTENDS Session, Json
CONSTANTS SOURCES, MODELS, DEPTH, LAZY, EMIT
VARIABLES st, store, dir, got, h
vars == <<st, store, dir, got, h>>
Names == 1..MODELS
Live == DOMAIN st.mod
Init == st = [rev |-> [s \in SOURCES |-> 1], mod |-> <<>>] /\ store = <<>> /\ dir = 1 /\ got = [m |-> 0] /\ h = <<>>
Log(o) == h' = Append(h, o)
\* place of the program of a model: absolute, one per conversion
Place(m) == m
Fresh == CHOOSE m \in Names : m \notin Live /\ \A k \in Names : k \notin Live => m <= k
DoConvert(s) == /\ Cardinality(Live) < MODELS
             /\ LET m == Fresh IN
                /\ st' = Convert(st, m, s)
                /\ store' = (IF LAZY THEN store ELSE (Place(m) :> [s |-> s, r |-> st.rev[s]]) @@ store)
                /\ Log([op |-> "convert", m |-> m, s |-> s])
             /\ UNCHANGED <<dir, got>>
\* lazily built programs are made from the copy inside of the model
Use(m, what) == /\ m \in Live
             /\ LET prog == IF Place(m) \in DOMAIN store THEN store[Place(m)] ELSE st.mod[m] IN
                /\ store' = (Place(m) :> prog) @@ store
                /\ got' = [m |-> m, a |-> prog]
                /\ Log([op |-> what, m |-> m])
             /\ UNCHANGED <<st, dir>>
DoRefit(s) == st' = Refit(st, s) /\ Log([op |-> "refit", s |-> s]) /\ UNCHANGED <<store, dir, got>>
Chdir == dir' = 3 - dir /\ Log([op |-> "chdir", d |-> 3 - dir]) /\ UNCHANGED <<st, store, got>>
Next == Len(h) < DEPTH /\ (\/ \E s \in SOURCES : DoConvert(s) \/ DoRefit(s)
                           \/ \E m \in Names : \E w \in {"predict", "proba", "save"} : Use(m, w)
                           \/ Chdir)
Own == got.m # 0 => got.a = Answers(st, got.m)
Programs == \A m \in Live : Place(m) \in DOMAIN store => store[Place(m)] = st.mod[m]
\* worth replaying: two models or more, ends with a use
Uses == {k \in 1..Len(h) : h[k].op \in {"predict", "proba", "save"}}
Emit == (EMIT /\ Len(h) = DEPTH /\ Cardinality(Live) >= 2 /\ h[1].op = "convert" /\ DEPTH \in Uses /\ h[DEPTH].op # "save") => PrintT("BEH " \o ToJson(h))
=============================================================================
