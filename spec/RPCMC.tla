--------------------------------- MODULE RPCMC ---------------------------------
EXTENDS RPCCore, TLC
CONSTANTS N, Vals, M
VARIABLES K, piv
vars == <<K, piv>>
Gram(b, c) == [i \in 1..N |-> [j \in 1..N |-> b[i] * b[j] + c[i] * c[j]]]
Init == \E b, c \in [1..N -> Vals] : K = Gram(b, c) /\ piv = <<>>
Next == /\ Len(piv) < M
        /\ \E x \in 1..N : Draw(K, N, piv)[x] > 0 /\ piv' = Append(piv, x)
        /\ UNCHANGED K
Spec == Init /\ [][Next]_vars
NonNegative == \A x \in 1..N : Draw(K, N, piv)[x] >= 0
NoRepeats == \A i, j \in 1..Len(piv) : i # j => piv[i] # piv[j]
CanProceed == Len(piv) < M => \E x \in 1..N : Draw(K, N, piv)[x] > 0
\* rank at most two: everything is explained after two informative pivots
RankTwo == Len(Core(K, N, piv)) <= 2
Independent == Vol(K, Core(K, N, piv)) > 0
================================================================================
