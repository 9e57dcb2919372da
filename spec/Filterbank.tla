----------------------------- MODULE Filterbank -----------------------------
(* A filter bank is a matrix, one row a filter.  Applying it is the matrix- *)
(* vector product; the sparse form keeps, for every row, the span from its  *)
(* first to its last non-zero coefficient (an empty span if there is none). *)
EXTENDS Integers, Sequences
RECURSIVE Dot(_, _, _)
Dot(row, x, j) == IF j > Len(row) THEN 0 ELSE row[j] * x[j] + Dot(row, x, j + 1)
Dense(M, x) == [i \in 1..Len(M) |-> Dot(M[i], x, 1)]
NonZero(row) == {j \in 1..Len(row) : row[j] # 0}
First(row) == IF NonZero(row) = {} THEN 1 ELSE CHOOSE j \in NonZero(row) : \A k \in NonZero(row) : j <= k
Last(row) == IF NonZero(row) = {} THEN 0 ELSE CHOOSE j \in NonZero(row) : \A k \in NonZero(row) : j >= k
Span(row) == SubSeq(row, First(row), Last(row))
RECURSIVE Flat(_, _)
Flat(M, i) == IF i > Len(M) THEN <<>> ELSE Span(M[i]) \o Flat(M, i + 1)
Sparse(M) == [starts |-> [i \in 1..Len(M) |-> First(M[i])], stops |-> [i \in 1..Len(M) |-> Last(M[i])], lut |-> Flat(M, 1)]
=============================================================================
