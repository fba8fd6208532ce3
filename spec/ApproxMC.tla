-------------------------------- MODULE ApproxMC --------------------------------
(* The approximation as a process: draw feature points one by one, draw training    *)
(* points, fit.  On every reachable fit: the residual on the training rows is       *)
(* orthogonal to the feature columns, a fit with at least as many features as       *)
(* training points interpolates, and with all points the mean is exact.             *)
EXTENDS ApproxCore, TLC
CONSTANTS N, Ent, Diag
VARIABLES K, F, I, phase
vars == <<K, F, I, phase>>
Tables == {m \in [1..N -> [1..N -> Ent \cup Diag]] :
            /\ \A i, j \in 1..N : m[i][j] = m[j][i] /\ (i = j => m[i][j] \in Diag) /\ (i # j => m[i][j] \in Ent)
            /\ Det(m) # 0}
Init == K \in Tables /\ F = <<>> /\ I = {} /\ phase = "features"
Feature == phase = "features" /\ \E i \in 1..N : (\A j \in 1..Len(F) : F[j] # i) /\ F' = Append(F, i) /\ UNCHANGED <<K, I, phase>>
Start == phase = "features" /\ F # <<>> /\ phase' = "train" /\ UNCHANGED <<K, F, I>>
Train == phase = "train" /\ \E i \in 1..N : i \notin I /\ I' = I \cup {i} /\ UNCHANGED <<K, F, phase>>
Next == Feature \/ Start \/ Train
Spec == Init /\ [][Next]_vars
Ord == Order(I)
R == FitAll(K, F, Ord, AllSums(K, Ord))
Target(i) == SumA([j \in 1..N |-> K[j][i]], N)
Fitted == phase = "train" /\ I # {}
Orthogonal == Fitted /\ R.den # 0 /\ Cardinality(I) >= Len(F) =>
   \A j \in 1..Len(F) : SumA([s \in 1..Len(Ord) |-> K[Ord[s]][F[j]] * (R.num[Ord[s]] - R.den * Target(Ord[s]))], Len(Ord)) = 0
Interpolates == Fitted /\ R.den # 0 /\ Cardinality(I) <= Len(F) => \A i \in I : R.num[i] = R.den * Target(i)
ExactWhenSpanning == Fitted /\ Len(F) = N /\ Cardinality(I) = N => R.den # 0 /\ \A i \in 1..N : R.num[i] = R.den * Target(i)
\* anchors never repeat when every point is more similar to itself than any two points are
AnchorsDistinct == phase = "features" /\ F = <<>> /\ (\A i, j, u \in 1..N : i # j => K[i][j] < K[u][u])
   => \A A \in Anchors(K, N) : Cardinality({A[j] : j \in 1..N}) = N
=================================================================================
