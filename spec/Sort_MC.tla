------------------------------- MODULE Sort_MC -------------------------------
(* The sorting algorithm, one partition or insertion pass per step, on every *)
(* array over KEYS of up to MAXN items (short subfiles: below THRESH).       *)
EXTENDS Sort, TLC
CONSTANTS KEYS, MAXN, THRESH, PATTERNS
VARIABLES a0, s, l, r, stack, pc
vars == <<a0, s, l, r, stack, pc>>
Arrays == UNION {[0..(n - 1) -> KEYS] : n \in 2..MAXN}
\* long structured arrays reach the real threshold
Pat(k, n) == [i \in 0..(n - 1) |-> CASE k = "up" -> i [] k = "down" -> n - i [] k = "const" -> 7 [] k = "two" -> i % 2
                                     [] k = "organ" -> IF i < n \div 2 THEN i ELSE n - i [] k = "saw" -> i % 5 [] k = "blocks" -> i \div 4
                                     [] OTHER -> (i * 7919) % 31]
Long == {Pat(k, n) : k \in {"up", "down", "const", "two", "organ", "saw", "blocks", "hash"}, n \in PATTERNS}
Init == /\ a0 \in Arrays \cup Long /\ s = [a |-> a0, oob |-> FALSE] /\ l = 0 /\ r = Cardinality(DOMAIN a0) - 1 /\ stack = <<>> /\ pc = "run"
Pop == IF stack = <<>> THEN pc' = "done" /\ UNCHANGED <<l, r, stack>>
       ELSE l' = stack[Len(stack)][1] /\ r' = stack[Len(stack)][2] /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED pc
Sub(l1, r1, l2, r2) == IF l2 = r2 THEN l' = l1 /\ r' = r1 /\ UNCHANGED stack
                       ELSE stack' = Append(stack, <<l1, r1>>) /\ l' = l2 /\ r' = r2
Step == /\ pc = "run" /\ UNCHANGED a0
        /\ IF r - l + 1 >= THRESH
           THEN LET p == Partition(s, l, r) IN
                /\ s' = p.s /\ UNCHANGED pc
                /\ IF p.s.oob THEN UNCHANGED <<l, r, stack>>
                   ELSE IF p.lo - l >= r - p.hi THEN Sub(l, p.lo, p.hi, r) ELSE Sub(p.hi, r, l, p.lo)
           ELSE s' = Insertion(s, l, r, l + 1) /\ Pop
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Seq0(f) == [i \in 1..Cardinality(DOMAIN f) |-> f[i - 1]]
InBounds == ~s.oob /\ (pc = "run" => 0 <= l /\ l <= r /\ r < Cardinality(DOMAIN a0))
Count(f, k) == Cardinality({i \in DOMAIN f : f[i] = k})
Same == \A k \in {a0[i] : i \in DOMAIN a0} \cup {s.a[i] : i \in DOMAIN s.a} : Count(s.a, k) = Count(a0, k)
Sorted == pc = "done" => Ordered(Seq0(s.a))
\* the waiting subfiles at least halve, so 32 frames are enough for 2^32 items
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
StackDepth == Len(stack) <= Log2(Cardinality(DOMAIN a0))
Terminates == <>(pc = "done")
=============================================================================
