-------------------------------- MODULE GKPCore --------------------------------
(* Greedy kernel points: position by position, the coreset member is chosen (or    *)
(* replaced) so as to minimise the squared error of the kernel ridge regression     *)
(* fitted on the coreset, over the loss points.                                     *)
(*   n, K, y   data: integer positive semidefinite kernel matrix, integer responses *)
(*   lam       regularisation (an integer; its sign is irrelevant)                  *)
(*   m, uniq   requested size, repeated members forbidden                           *)
(*   start     initial members (possibly fewer or more than m)                      *)
(*   cb, lb    size of the random candidate / loss batches (n = everything)         *)
(* Losses are exact rationals (Cramer's rule), compared in thousandths.             *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES inst, mem, act, pos
gvars == <<inst, mem, act, pos>>

RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
Total(s) == SumTo(s, Len(s))
Sgn(j) == IF j % 2 = 1 THEN 1 ELSE -1
DropAt(s, j) == [i \in 1..(Len(s) - 1) |-> IF i < j THEN s[i] ELSE s[i + 1]]
Minor(A, j) == [i \in 1..(Len(A) - 1) |-> DropAt(A[i + 1], j)]
RECURSIVE Det(_)
Det(A) == IF Len(A) = 0 THEN 1
          ELSE IF Len(A) = 1 THEN A[1][1]
          ELSE Total([j \in 1..Len(A) |-> IF A[1][j] = 0 THEN 0 ELSE Sgn(j) * A[1][j] * Det(Minor(A, j))])

AbsV(x) == IF x < 0 THEN -x ELSE x
\* regression fitted on the member sequence ms: coefficients are num[i] / D
Sys(ms) == [i \in 1..Len(ms) |-> [j \in 1..Len(ms) |->
              inst.K[ms[i]][ms[j]] + IF i = j THEN AbsV(inst.lam) ELSE 0]]
WithColumn(A, c, v) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF j = c THEN v[i] ELSE A[i][j]]]
Thousandths(N, D) == 1000 * (N \div D) + (1000 * (N % D)) \div D
\* sum over the loss points of prediction * (prediction - 2 * response)
Loss(ms, B) ==
  LET A == Sys(ms)
      D == Det(A)
      v == [i \in 1..Len(ms) |-> inst.y[ms[i]]]
      num == [c \in 1..Len(ms) |-> Det(WithColumn(A, c, v))]
      q == [t \in 1..inst.n |-> IF t \in B THEN Total([i \in 1..Len(ms) |-> inst.K[t][ms[i]] * num[i]]) ELSE 0]
  IN Thousandths(Total([t \in 1..inst.n |-> q[t] * (q[t] - 2 * D * inst.y[t])]), D * D)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
InitMem(I) == [i \in 1..I.m |-> IF i <= Len(I.start) THEN I.start[i] ELSE 1]
InitAct(I) == [i \in 1..I.m |-> i <= Len(I.start)]
Positions == 1..Len(mem)
OtherPoints == {mem[j] : j \in {k \in Positions : act[k] /\ k # pos}}
\* present members, with x at the position treated
RECURSIVE Pack(_, _)
Pack(x, i) == IF i = 0 THEN <<>>
              ELSE IF i = pos THEN Append(Pack(x, i - 1), x)
              ELSE IF act[i] THEN Append(Pack(x, i - 1), mem[i]) ELSE Pack(x, i - 1)
With(x) == Pack(x, Len(mem))

Points == 1..inst.n
SubsetsOfSize(k) == {B \in SUBSET Points : Cardinality(B) = k}
LossBatches == IF inst.lb >= inst.n THEN {Points} ELSE SubsetsOfSize(inst.lb)
Eligible(x) == inst.uniq => x \notin OtherPoints
\* x wins for loss points B: some candidate batch makes it the best eligible candidate.
\* The member held at this position is always a candidate too.
Wins(x, B) ==
  LET loss == [z \in Points |-> IF Eligible(z) THEN Loss(With(z), B) ELSE 0]
      beaten == {z \in Points \ {x} : ~Eligible(z) \/ loss[z] >= loss[x] - inst.eps}
      held == IF act[pos] THEN mem[pos] ELSE 0
  IN /\ Eligible(x)
     /\ IF inst.cb >= inst.n THEN Cardinality(beaten) = inst.n - 1
        ELSE IF held = x THEN Cardinality(beaten \cup {x}) >= inst.cb
        ELSE Cardinality(beaten) >= inst.cb - 1 /\ (held = 0 \/ held \in beaten)
IsBest(x) == x \in Points /\ \E B \in LossBatches : Wins(x, B)

Treating == pos <= inst.m
Pick(x) ==
  /\ Treating
  /\ IsBest(x)
  /\ mem' = [mem EXCEPT ![pos] = x]
  /\ act' = [act EXCEPT ![pos] = TRUE]
  /\ pos' = pos + 1
  /\ UNCHANGED inst

Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
NoRepeats == (inst.uniq /\ Distinct(inst.start)) =>
               \A i, j \in Positions : (i # j /\ act[i] /\ act[j]) => mem[i] # mem[j]
Full == \A i \in Positions : act[i]
FullSearch == inst.cb >= inst.n /\ inst.lb >= inst.n
================================================================================
