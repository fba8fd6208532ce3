-------------------------------- MODULE Subset --------------------------------
(* What every subset solver promises about its result, independently of how it   *)
(* selects: the life cycle of one request.                                       *)
(*   Ask     a caller asks for m of the n rows of a dataset                      *)
(*   Refuse  the request is infeasible and is answered with an error             *)
(*   Answer  the request is feasible and answered with a sequence of m rows      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxM
VARIABLES phase, n, m, uniq, positive, answer
vars == <<phase, n, m, uniq, positive, answer>>

Feasible == m >= 1 /\ m <= n
\* rows that may be returned: all of them unless the solver ignores zero weights
Answers == {s \in [1..m -> positive] : uniq => \A i, j \in 1..m : i # j => s[i] # s[j]}

Init == phase = "idle" /\ n = 0 /\ m = 0 /\ uniq = FALSE /\ positive = {} /\ answer = <<>>
Ask ==
  /\ phase = "idle"
  /\ n' \in 1..MaxN
  /\ m' \in -1..MaxM
  /\ uniq' \in BOOLEAN
  /\ positive' \in SUBSET (1..n')
  /\ Cardinality(positive') >= m'       \* enough usable rows is the caller's obligation
     \/ m' > n'
  /\ phase' = "asked"
  /\ UNCHANGED answer
Refuse == phase = "asked" /\ ~Feasible /\ phase' = "refused" /\ UNCHANGED <<n, m, uniq, positive, answer>>
Answer == phase = "asked" /\ Feasible /\ answer' \in Answers /\ phase' = "answered"
          /\ UNCHANGED <<n, m, uniq, positive>>
Next == Ask \/ Refuse \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Refuse \/ Answer)

Size == phase = "answered" => Len(answer) = m
InRange == phase = "answered" => \A i \in 1..m : answer[i] \in 1..n
Distinct == (phase = "answered" /\ uniq) => Cardinality({answer[i] : i \in 1..m}) = m
RefusedOnlyInfeasible == phase = "refused" => (m < 1 \/ m > n)
EveryRequestEnds == phase = "asked" ~> phase \in {"answered", "refused"}
================================================================================
