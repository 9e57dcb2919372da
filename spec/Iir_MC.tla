------------------------------- MODULE Iir_MC -------------------------------
(* Two filters fed in any interleaving: the transposed implementation stays *)
(* in step with the difference equation, and no filter touches the other.   *)
EXTENDS Iir, TLC
CONSTANTS COEF, XS, DEPTH, STAGES
Secs == {<<b0, b1, b2, a1, a2>> : b0 \in {1, 2}, b1 \in COEF, b2 \in COEF, a1 \in COEF, a2 \in COEF}
VARIABLES sos, mem, w, out, n
vars == <<sos, mem, w, out, n>>
Init == /\ sos \in {<<[k \in 1..STAGES |-> a], [k \in 1..1 |-> b]>> : a \in Secs, b \in {<<1, 1, 0, 1, 0>>, <<2, 0, 1, 0, 1>>}}
        /\ mem = [f \in 1..2 |-> Fresh(sos[f])] /\ w = [f \in 1..2 |-> FreshT(sos[f])] /\ out = <<<<0, 0>>, <<0, 0>>>> /\ n = 0
FeedF(f, x) == LET a == Feed(sos[f], mem[f], x) b == RunT(sos[f], w[f], x, 1) IN
    /\ mem' = [mem EXCEPT ![f] = a[2]] /\ w' = [w EXCEPT ![f] = b[2]]
    /\ out' = [out EXCEPT ![f] = <<a[1], b[1]>>] /\ n' = n + 1 /\ UNCHANGED sos
Next == n < DEPTH /\ \E f \in 1..2, x \in XS : FeedF(f, x)
SameOutput == \A f \in 1..2 : out[f][1] = out[f][2]
Represents == \A f \in 1..2 : Abstraction(sos[f], mem[f], w[f])
Isolated == [][\E f \in 1..2 : mem'[f] = mem[f] /\ w'[f] = w[f]]_vars
=============================================================================
