------------------------------- MODULE Big_MC -------------------------------
EXTENDS Big
CONSTANTS NUMS
VARIABLES a, b
S == NUMS \cup {-x : x \in NUMS}
Init == a \in S /\ b \in S
Next == UNCHANGED <<a, b>>
A == FromInt(a)
B == FromInt(b)
SmallEnough == (a = 0 \/ b = 0) \/ (a < 46000 /\ a > -46000 /\ b < 46000 /\ b > -46000)
Ops == /\ AddB(A, B) = FromInt(a + b) /\ SubB(A, B) = FromInt(a - b)
       /\ (SmallEnough => MulB(A, B) = FromInt(a * b))
       /\ LtB(A, B) = (a < b) /\ LeB(A, B) = (a <= b)
Rings == /\ MulB(A, AddB(A, B)) = AddB(MulB(A, A), MulB(A, B))
         /\ MulB(MulB(A, B), MulB(A, B)) = MulB(MulB(A, A), MulB(B, B))
         /\ SubB(MulB(A, A), MulB(B, B)) = MulB(SubB(A, B), AddB(A, B))
=============================================================================
