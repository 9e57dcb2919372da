------------------------------- MODULE Net_MC -------------------------------
(* The inference of the library: two buffers, the hidden layers copied from  *)
(* the second back to the first, the result left in the second.  Buffers are *)
(* shared by successive calls on the same model and start with anything.     *)
EXTENDS Net, TLC
CONSTANTS WVALS, XVALS, SET
SHAPES == IF SET = 1 THEN {<<1,2,1>>, <<2,1,2>>, <<1,1,2,1>>} ELSE {<<2,2,1>>, <<1,2,2>>, <<1,2,1,2>>, <<2,1,1,2>>}
VARIABLES layers, x, b1, b2, k, call
vars == <<layers, x, b1, b2, k, call>>
Mat(i, o) == [1..i -> [1..o -> WVALS]]
L(i, o, a) == {[w |-> w, b |-> [p \in 1..o |-> p - 1], act |-> a] : w \in Mat(i, o)}
Largest(sh) == MaxOf(sh, Len(sh))
Nets(sh) == IF Len(sh) = 3 THEN {<<p, q>> : p \in L(sh[1], sh[2], "relu"), q \in L(sh[2], sh[3], "identity")}
            ELSE {<<p, q, r>> : p \in L(sh[1], sh[2], "identity"), q \in L(sh[2], sh[3], "relu"), r \in L(sh[3], sh[4], "identity")}
BufLen == MaxN(Len(layers[1].w), MaxOf([p \in 1..Len(layers) |-> Len(layers[p].b)], Len(layers)))
Init == /\ layers \in UNION {Nets(sh) : sh \in SHAPES}
        /\ x \in [1..Len(layers[1].w) -> XVALS]
        /\ b1 = [p \in 1..BufLen |-> 77] /\ b2 = [p \in 1..BufLen |-> 88] /\ k = 0 /\ call = 1
\* overwrite the head of a buffer
Put(buf, v) == [p \in 1..Len(buf) |-> IF p <= Len(v) THEN v[p] ELSE buf[p]]
One(l, v) == Activate(l.act, Affine(l, [v |-> SubSeq(v, 1, Len(l.w)), S |-> 1, tol |-> 0], 1, 1)).v
NL == Len(layers)
First == k = 0 /\ b1' = Put(b1, One(layers[1], x)) /\ b2' = b2 /\ k' = 1 /\ UNCHANGED <<layers, x, call>>
Hidden == k >= 1 /\ k < NL - 1 /\ b2' = Put(b2, One(layers[k + 1], b1)) /\ b1' = b2' /\ k' = k + 1 /\ UNCHANGED <<layers, x, call>>
Last == k = NL - 1 /\ b2' = Put(b2, One(layers[NL], b1)) /\ b1' = b1 /\ k' = NL /\ UNCHANGED <<layers, x, call>>
Again == k = NL /\ call < 2 /\ call' = call + 1 /\ k' = 0 /\ x' \in [1..Len(x) -> XVALS] /\ UNCHANGED <<layers, b1, b2>>
Next == First \/ Hidden \/ Last \/ Again
Result == k = NL => SubSeq(b2, 1, Len(layers[NL].b)) = Forward(layers, [v |-> x, S |-> 1, tol |-> 0], 1, 1)[2].v
=============================================================================
