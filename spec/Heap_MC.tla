------------------------------ MODULE Heap_MC ------------------------------
(* A caller that owns all storage and a library that only borrows it: calls  *)
(* nest (library functions call each other and call back into the caller).   *)
(* The blocks a call was given are still there when it returns, and the      *)
(* library never holds one of its own - by design, because it has no         *)
(* allocating action at all.                                                 *)
EXTENDS Heap, Sequences, TLC
CONSTANTS BLOCKS, NEST
VARIABLES heap, stack, errs
vars == <<heap, stack, errs>>
Init == heap = {} /\ stack = <<>> /\ errs = 0
CallerAlloc == stack = <<>> /\ \E b \in BLOCKS \ heap : heap' = heap \cup {b} /\ UNCHANGED <<stack, errs>>
CallerFree == stack = <<>> /\ \E b \in heap : heap' = heap \ {b} /\ UNCHANGED <<stack, errs>>
Call == Len(stack) < NEST /\ \E lent \in SUBSET heap : stack' = Append(stack, [lent |-> IF stack = <<>> THEN lent ELSE lent \cap stack[Len(stack)].lent, at |-> heap]) /\ UNCHANGED <<heap, errs>>
Work == stack # <<>> /\ UNCHANGED vars
Return == stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED heap /\ \E e \in 0..1 : errs' = e
Next == CallerAlloc \/ CallerFree \/ Call \/ Return
Borrowed == \A k \in 1..Len(stack) : stack[k].lent \subseteq heap /\ stack[k].at = heap
=============================================================================
