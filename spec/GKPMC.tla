--------------------------------- MODULE GKPMC ---------------------------------
(* Exhaustive exploration of greedy kernel points over every small instance.       *)
EXTENDS GKPCore, TLC
CONSTANTS N, Feat, Resp, Lams, MaxM, MaxStart
\* kernel (b_i * b_j + 1 if same feature): always positive semidefinite
Gram(b) == [i \in 1..N |-> [j \in 1..N |-> b[i] * b[j] + IF b[i] = b[j] THEN 1 ELSE 0]]
Starts == UNION {{s \in [1..k -> 1..N] : Distinct(s)} : k \in 0..MaxStart}
Init ==
  /\ \E b \in [1..N -> Feat], r \in [1..N -> Resp] : inst = [n |-> N, K |-> Gram(b), y |-> [i \in 1..N |-> r[i] - 1], m |-> 0]
  /\ mem = <<>> /\ act = <<>> /\ pos = 0
Setup ==
  /\ pos = 0
  /\ \E m \in 1..MaxM, u \in BOOLEAN, s \in Starts, la \in Lams, cb \in {2, N}, lb \in {2, N} :
       /\ (u => cb >= m)
       /\ inst' = [n |-> N, K |-> inst.K, y |-> inst.y, lam |-> la, m |-> m, uniq |-> u, start |-> s,
                   cb |-> cb, lb |-> lb, eps |-> 0]
       /\ mem' = InitMem(inst')
       /\ act' = InitAct(inst')
       /\ pos' = 1
Next == Setup \/ (pos > 0 /\ \E x \in 1..N : Pick(x))
Spec == Init /\ [][Next]_gvars
Ready == pos > 0
INoRepeats == Ready => NoRepeats
ICanProceed == (Ready /\ Treating) => \E x \in 1..N : IsBest(x)
\* refinement with full candidate and loss sets never increases the loss
NeverWorse == [][(Ready /\ FullSearch /\ Full /\ act[Len(mem)] /\ Len(inst.start) >= inst.m) =>
                   Loss(mem', 1..N) <= Loss(mem, 1..N)]_gvars
================================================================================
