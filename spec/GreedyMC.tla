------------------------------- MODULE GreedyMC -------------------------------
(* Exhaustive exploration of GreedyCore over every small instance.             *)
EXTENDS GreedyCore, TLC
CONSTANTS N,          \* number of points
          KVals,      \* values of the off-diagonal kernel entries
          DVals,      \* values of the diagonal kernel entries
          WVals,      \* weights
          MaxM,       \* sizes 1..MaxM
          MaxStart    \* initial coresets of size 0..MaxStart

Pairs == {p \in (1..N) \X (1..N) : p[1] < p[2]}
Sym(o, d) == [x \in 1..N |-> [y \in 1..N |->
                IF x = y THEN d[x] ELSE IF x < y THEN o[<<x, y>>] ELSE o[<<y, x>>]]]
Starts == UNION {[1..k -> 1..N] : k \in 0..MaxStart}

Init ==
  /\ \E o \in [Pairs -> KVals], d \in [1..N -> DVals] : inst = [n |-> N, K |-> Sym(o, d), m |-> 0]
  /\ mem = <<>>
  /\ act = <<>>
  /\ pos = 0
Setup ==
  /\ pos = 0
  /\ \E wt \in [1..N -> WVals], m \in 1..MaxM, u \in BOOLEAN, s \in Starts :
       /\ Cardinality({x \in 1..N : wt[x] > 0}) >= Max2(m, Len(s))
       /\ (u => \A i, j \in 1..Len(s) : i # j => s[i] # s[j])
       /\ LET I0 == [n |-> N, K |-> inst.K, w |-> wt] IN
          inst' = [n |-> N, K |-> inst.K, w |-> wt, m |-> m, uniq |-> u, start |-> s,
                   act0 |-> [i \in 1..Len(s) |-> TRUE], kind |-> "herd", eps |-> 0,
                   R |-> [x \in 1..N |-> RowSum(I0, x)], W |-> WeightSum(I0)]
       /\ mem' = InitMem(inst')
       /\ act' = InitAct(inst')
       /\ pos' = 1
Next == Setup \/ (pos > 0 /\ \E x \in 1..N : Pick(x))
Spec == Init /\ [][Next]_gvars

Ready == pos > 0
ITypeOK == Ready => TypeOK
INoRepeats == Ready => NoRepeats
IOnlyWeighted == Ready => OnlyWeighted
ICanProceed == Ready => CanProceed
Finishes == Ready => (pos = inst.m + 1) \/ (\E x \in 1..N : IsBest(x))
\* P07 as an action property: replacing a member of a full coreset never increases the
\* discrepancy when the kernel diagonal is constant (with or without uniqueness).
FullSameSize == Ready /\ Len(inst.start) = inst.m /\ ConstantDiagonal
                /\ \A i \in Positions : inst.w[mem[i]] > 0
NeverWorse == [][FullSameSize => Mmd2(mem') <= Mmd2(mem)]_gvars
================================================================================
