--------------------------------- MODULE Helpers ---------------------------------
(* Definitions of the small helpers everything else is built from, over integers.   *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumH(_, _)
SumH(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumH(f, k - 1)
SqDist(x, y) == SumH([i \in 1..Len(x) |-> (x[i] - y[i]) * (x[i] - y[i])], Len(x))
Diff(x, y) == [i \in 1..Len(x) |-> x[i] - y[i]]
\* squared distances of all unordered pairs, as a function from pairs
PairSet(X) == {p \in (1..Len(X)) \X (1..Len(X)) : p[1] < p[2]}
\* twice the median of the squared distances: the middle value doubled, or the sum of the two middle ones.
\* Rank argument instead of sorting: v is a k-th smallest iff fewer than k are below and at least k are not above.
Kth(X, k, v) == LET D(p) == SqDist(X[p[1]], X[p[2]])
                IN /\ Cardinality({p \in PairSet(X) : D(p) < v}) < k
                   /\ Cardinality({p \in PairSet(X) : D(p) <= v}) >= k
Values(X) == {SqDist(X[p[1]], X[p[2]]) : p \in PairSet(X)}
TwiceMedian(X) ==
  LET n == Cardinality(PairSet(X))
      at(k) == CHOOSE v \in Values(X) : Kth(X, k, v)
  IN at((n + 1) \div 2) + at((n + 2) \div 2)
\* values strictly between minus the threshold and zero become zero
Threshold(x, t) == IF -(IF t < 0 THEN -t ELSE t) < x /\ x < 0 THEN 0 ELSE x
\* a sequence of leaves is extended by its last element
Repeat(s, k) == IF Len(s) >= k THEN s ELSE s \o [i \in 1..(k - Len(s)) |-> s[Len(s)]]
==================================================================================
