------------------------------ MODULE GreedyCore ------------------------------
(* Greedy point-by-point selection of a coresubset, as performed by kernel      *)
(* herding and Stein thinning (coreax/solvers/coresubset.py).                   *)
(*                                                                              *)
(* An instance is a record                                                      *)
(*   n       number of data points (points are 1..n)                            *)
(*   K       n x n integer kernel matrix (row sequences)                        *)
(*   w       integer data weights (0 = padding)                                 *)
(*   m       requested size                                                     *)
(*   uniq    are repeated members forbidden                                     *)
(*   start   initial members (sequence of points, may be empty, shorter or      *)
(*           longer than m)                                                     *)
(*   act0    act0[i] = is the i-th initial member really present (non-zero      *)
(*           weight) or only a placeholder                                      *)
(*   kind    "herd" (maximise the herding criterion) or                         *)
(*           "stein" (minimise the Stein criterion)                             *)
(*   R       herd: the row sums  sum_j w_j K[x][j]   W: sum of the weights      *)
(*   a, b    stein: criterion offset a[x] - t * b[x]                            *)
(*   eps     slack on the criterion comparison (0 for exact instances)          *)
(* The state is the sequence of members, which of them are present, and the     *)
(* position being treated: one action per loop iteration of the code.           *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES inst, mem, act, pos
gvars == <<inst, mem, act, pos>>

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumSeq(s, i - 1)
Total(s) == SumSeq(s, Len(s))

RowSum(I, x) == Total([j \in 1..I.n |-> I.w[j] * I.K[x][j]])
WeightSum(I) == Total(I.w)

Max2(a, b) == IF a > b THEN a ELSE b

InitMem(I) == [i \in 1..Max2(I.m, Len(I.start)) |-> IF i <= Len(I.start) THEN I.start[i] ELSE 1]
InitAct(I) == [i \in 1..Max2(I.m, Len(I.start)) |-> IF i <= Len(I.start) THEN I.act0[i] ELSE FALSE]

Positions == 1..Len(mem)
Others == {j \in Positions : act[j] /\ j # pos}        \* members other than the one treated
OtherPoints == {mem[j] : j \in Others}
\* similarity to all other present members; a point present twice counts twice
Penalty(x) == Total([j \in Positions |-> IF act[j] /\ j # pos THEN inst.K[x][mem[j]] ELSE 0])
Count == Cardinality(Others) + 1

Candidates == {x \in 1..inst.n : inst.w[x] > 0 /\ (inst.uniq => x \notin OtherPoints)}

\* Larger is better, whatever the kind.  Herding: T*W*(mean - penalty/T); Stein: -criterion.
Score(x) ==
  IF inst.kind = "herd" THEN Count * inst.R[x] - inst.W * Penalty(x)
  ELSE -(inst.a[x] + 2 * Penalty(x) - pos * inst.b[x])

Slack == IF inst.kind = "herd" THEN inst.eps * Count ELSE inst.eps
IsBest(x) == x \in Candidates /\ LET s == Score(x) IN \A y \in Candidates : s >= Score(y) - Slack

Treating == pos <= inst.m
Pick(x) ==
  /\ Treating
  /\ IsBest(x)
  /\ mem' = [mem EXCEPT ![pos] = x]
  /\ act' = [act EXCEPT ![pos] = TRUE]
  /\ pos' = pos + 1
  /\ UNCHANGED inst

Result == SubSeq(mem, 1, inst.m)

\* ------------------------------------------------------------------ properties
TypeOK ==
  /\ pos \in 1..(inst.m + 1)
  /\ \A i \in Positions : mem[i] \in 1..inst.n
Feasible == Cardinality({x \in 1..inst.n : inst.w[x] > 0}) >= Len(mem)
StartDistinct == \A i, j \in 1..Len(inst.start) :
                    (i # j /\ inst.act0[i] /\ inst.act0[j]) => inst.start[i] # inst.start[j]
\* P02: nothing present is present twice
NoRepeats == (inst.uniq /\ StartDistinct) =>
                \A i, j \in Positions : (i # j /\ act[i] /\ act[j]) => mem[i] # mem[j]
\* P08: nothing selected has zero weight
OnlyWeighted == \A i \in 1..(pos - 1) : inst.w[mem[i]] > 0
\* progress: as long as the request is feasible there is always a candidate
CanProceed == (Treating /\ Feasible) => Candidates # {}

\* P07: squared discrepancy (scaled by n^2 m^2) of a full, unit-weighted member list
Mmd2(ms) ==
  LET k == Len(ms) IN
    k * k * Total([x \in 1..inst.n |-> inst.w[x] * inst.R[x]])
    - 2 * inst.W * k * Total([i \in 1..k |-> inst.R[ms[i]]])
    + inst.W * inst.W * Total([i \in 1..k |-> Total([j \in 1..k |-> inst.K[ms[i]][ms[j]]])])
ConstantDiagonal == \A x \in 1..inst.n : inst.K[x][x] = inst.K[1][1]
================================================================================
