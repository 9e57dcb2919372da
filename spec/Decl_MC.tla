------------------------------ MODULE Decl_MC ------------------------------
(* Every list of words and every width; every integer of every type.        *)
EXTENDS Decl
CONSTANTS WORDS, LENS, WIDTHS, BITS
VARIABLES words, width, v, bits, signed
vars == <<words, width, v, bits, signed>>
\* words of a given length, told apart by their position
W(l, p) == [k \in 1..l |-> <<p, k>>]
Init == /\ words \in UNION {{[p \in 1..n |-> W(f[p], p)] : f \in [1..n -> LENS]} : n \in 0..WORDS}
        /\ width \in WIDTHS
        /\ bits \in BITS /\ signed \in BOOLEAN
        /\ v = IF signed THEN -(2^(bits - 1)) ELSE 0
Next == InRange(v + 1, bits, signed) /\ v' = v + 1 /\ UNCHANGED <<words, width, bits, signed>>
SameWords == Cat(Wrap(words, <<>>, width)) = words
FitsUnlessOneWord == \A k \in 1..Len(Wrap(words, <<>>, width)) : LET ln == Wrap(words, <<>>, width)[k] IN Width(ln) <= width \/ Len(ln) = 1
ReadsBack == Into(Read(Print(v)), bits, signed) = v
=============================================================================
