--------------------------------- MODULE SSMMC ---------------------------------
(* The training loop as a state machine: parameters, steps taken, rows used.  Facts *)
(* checked on every reachable state: the gradient is that of the objective (exact   *)
(* central differences, the objective is quadratic), the plain and the analytic     *)
(* objective agree on average over sign vectors, a batch is the sum of its rows in  *)
(* any order, and the true score -x of data with unit covariance is stationary.     *)
EXTENDS SSMCore, TLC
CONSTANTS Ent, Epochs, Lim
VARIABLES W, b, an, used
vars == <<W, b, an, used>>
X == <<<<1, 2>>, <<-1, 0>>, <<0, 1>>>>
V == << <<<<1, -1>>>>, <<<<2, 1>>>>, <<<<0, 1>>>> >>
Shift == {e - 1 : e \in Ent}
Init == /\ W \in [1..2 -> [1..2 -> Shift]] /\ b \in [1..2 -> Shift] /\ an \in BOOLEAN /\ used = <<>>
Small(t) == \A i \in 1..2 : t[2][i] \in (-Lim)..Lim /\ \A j \in 1..2 : t[1][i][j] \in (-Lim)..Lim
Train == /\ Len(used) < Epochs
         /\ \E r \in 1..3 :
              LET t == Descend(W, b, X, V, an, <<r>>)
              IN Small(t) /\ W' = t[1] /\ b' = t[2] /\ used' = Append(used, r)
         /\ UNCHANGED an
Next == Train
Spec == Init /\ [][Next]_vars
Bump(M, i, j, e) == [M EXCEPT ![i][j] = @ + e]
GradientOfObjective ==
  \A r \in 1..3 : LET x == X[r]
                      v == V[r][1]
                  IN /\ \A i \in 1..2, j \in 1..2 :
                          4 * GradW(W, b, x, v, an)[i][j] = Obj2(Bump(W, i, j, 1), b, x, v, an) - Obj2(Bump(W, i, j, -1), b, x, v, an)
                     /\ \A j \in 1..2 :
                          4 * GradB(W, b, x, v, an)[j] = Obj2(W, [b EXCEPT ![j] = @ + 1], x, v, an) - Obj2(W, [b EXCEPT ![j] = @ - 1], x, v, an)
Signs == <<<<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>>>>
AnalyticIsAverage ==
  \A r \in 1..3 : SumS([k \in 1..4 |-> Obj2(W, b, X[r], Signs[k], TRUE)], 4) = SumS([k \in 1..4 |-> Obj2(W, b, X[r], Signs[k], FALSE)], 4)
OrderFree == /\ BatchW(W, b, X, V, an, <<1, 3, 2>>) = BatchW(W, b, X, V, an, <<2, 1, 3>>)
             /\ BatchB(W, b, X, V, an, <<1, 1, 2>>) = BatchB(W, b, X, V, an, <<1, 2, 1>>)
TrueScoreStationary == used = <<>> =>
  LET M == <<<<-1, 0>>, <<0, -1>>>>
      VV == [r \in 1..4 |-> Signs]
  IN /\ BatchW(M, <<0, 0>>, Signs, VV, an, <<1, 2, 3, 4>>) = ZeroM(2)
     /\ BatchB(M, <<0, 0>>, Signs, VV, an, <<1, 2, 3, 4>>) = ZeroV(2)
StepsCounted == Len(used) <= Epochs
================================================================================
