------------------------------ MODULE Ident_MC ------------------------------
(* A directory, and calls of save().                                         *)
EXTENDS Ident, Json
CONSTANTS NAMES, PATHS, DEPTH, EMIT
VARIABLES files, last, hist
vars == <<files, last, hist>>
\* abstract names: "n1" "n2" fine, "b1" no identifier, "r1" a reserved word; paths: "p1" "p2" with a fine base name, "q1" with a bad one
Fine(x) == x \in {"n1", "n2", "p1", "p2"}
Init == files = <<>> /\ last = [ok |-> TRUE, kind |-> "none"] /\ hist = <<>>
Save(model, name, path) ==
    LET eff == IF name # "none" THEN name ELSE path
        ok == eff # "none" /\ Fine(eff)
        text == <<model, eff>>
    IN /\ files' = (IF ok /\ path # "none" THEN Saved(files, path, text) ELSE files)
       /\ last' = [ok |-> ok, kind |-> "save", path |-> path, text |-> text, before |-> files]
       /\ hist' = Append(hist, [m |-> model, name |-> name, path |-> path, ok |-> ok])
Next == Len(hist) < DEPTH /\ \E m \in {"a", "b"}, n \in NAMES \cup {"none"}, p \in PATHS \cup {"none"} : Save(m, n, p)
RefusedWritesNothing == (last.kind = "save" /\ ~last.ok) => files = last.before
FileIsText == (last.kind = "save" /\ last.ok /\ last.path # "none") => files[last.path] = last.text
OthersStay == last.kind = "save" => \A p \in DOMAIN last.before : p # last.path => files[p] = last.before[p]
\* symbols made of a name and something that starts with an underscore, or nothing, are apart when no name extends the other
Alphabet == {97, 98, 95, 48}
Words == UNION {[1..k -> Alphabet] : k \in 1..3}
Suffixes == {<<>>, <<95>>, <<95, 97>>, <<95, 98, 95>>}
ASSUME \A a, b \in Words : Apart(a, b) => \A s, t \in Suffixes : a \o s # b \o t
ASSUME Base(<<47, 97, 47, 98, 46, 104>>) = <<98>> /\ Base(<<46, 98>>) = <<46, 98>> /\ Base(<<98, 46, 97, 46, 104>>) = <<98, 46, 97>>
Emit == IF EMIT /\ Len(hist) = DEPTH THEN PrintT("BEH " \o ToJson(hist)) ELSE TRUE
=============================================================================
