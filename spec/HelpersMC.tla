-------------------------------- MODULE HelpersMC --------------------------------
(* A set of points grows one at a time; the median length scale depends neither on  *)
(* the order of the points nor on their common shift, scales with them, and lies    *)
(* between the extreme distances.  Thresholding and repetition are idempotent.      *)
EXTENDS Helpers, TLC
CONSTANTS Lim, Size
VARIABLES X
Pts == {<<a, b>> : a \in 0..Lim, b \in 0..1}
Init == X = <<>>
Next == Len(X) < Size /\ \E p \in Pts : X' = Append(X, p)
Spec == Init /\ [][Next]_X
Rev == [i \in 1..Len(X) |-> X[Len(X) + 1 - i]]
Map(f(_)) == [i \in 1..Len(X) |-> f(X[i])]
Shift(p) == <<p[1] + 2, p[2] - 1>>
Dbl(p) == <<2 * p[1], 2 * p[2]>>
Max(S) == CHOOSE a \in S : \A b \in S : b <= a
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
MedianOK == Len(X) >= 2 =>
  LET m == TwiceMedian(X)
  IN /\ TwiceMedian(Rev) = m
     /\ TwiceMedian(Map(Shift)) = m
     /\ TwiceMedian(Map(Dbl)) = 4 * m
     /\ 2 * Min(Values(X)) <= m /\ m <= 2 * Max(Values(X))
     /\ Cardinality({p \in PairSet(X) : 2 * SqDist(X[p[1]], X[p[2]]) < m}) * 2 <= Cardinality(PairSet(X))
     /\ Cardinality({p \in PairSet(X) : 2 * SqDist(X[p[1]], X[p[2]]) > m}) * 2 <= Cardinality(PairSet(X))
DistOK == \A i \in 1..Len(X), j \in 1..Len(X) :
  /\ SqDist(X[i], X[j]) = SqDist(X[j], X[i]) /\ SqDist(X[i], X[j]) >= 0 /\ (SqDist(X[i], X[j]) = 0 <=> X[i] = X[j])
  /\ Diff(X[i], X[j]) = [k \in 1..2 |-> -Diff(X[j], X[i])[k]]
ThresholdOK == \A x \in -3..3, t \in -2..2 :
  LET y == Threshold(x, t) IN Threshold(y, t) = y /\ (y = x \/ (y = 0 /\ x < 0)) /\ y >= x
RepeatOK == X # <<>> => \A k \in 1..(Size + 2) : LET R == Repeat(X, k) IN Len(R) >= k /\ Repeat(R, k) = R /\ SubSeq(R, 1, Len(X)) = X
==================================================================================
