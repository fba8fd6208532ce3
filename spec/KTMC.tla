---------------------------------- MODULE KTMC ----------------------------------
(* The halving as a process on integer points of a line with kernel 1 + x y + (x y)^2 *)
(* (positive definite): every pair is split, coins only where the rule allows.         *)
EXTENDS KTCore
CONSTANTS Xs, Pairs, CCs
VARIABLES xs, cc, first, second
vars == <<xs, cc, first, second>>
K == [i \in 1..(2 * Pairs) |-> [j \in 1..(2 * Pairs) |-> 1 + xs[i] * xs[j] + xs[i] * xs[j] * xs[i] * xs[j]]]
Done == Len(first)
Init == xs \in [1..(2 * Pairs) -> Xs] /\ cc \in CCs /\ first = <<>> /\ second = <<>>
P == SwapProb(K, cc, first, Done + 1)
Keep == /\ Done < Pairs /\ P < 10000
        /\ first' = Append(first, 2 * Done + 1) /\ second' = Append(second, 2 * Done + 2) /\ UNCHANGED <<xs, cc>>
Swap == /\ Done < Pairs /\ P > 0
        /\ first' = Append(first, 2 * Done + 2) /\ second' = Append(second, 2 * Done + 1) /\ UNCHANGED <<xs, cc>>
Next == Keep \/ Swap
Spec == Init /\ [][Next]_vars
Split == \A i \in 1..Done : {first[i], second[i]} = {2 * i - 1, 2 * i}
\* never stuck before every pair is treated
Total == Done < Pairs => (P < 10000 \/ P > 0)
FirstIsFair == Done = 0 => P = 5000
\* a coincident pair is decided by a fair coin
Coincident == (Done < Pairs /\ B2(K, Done + 1) = 0) => P = 5000
\* the rule pushes back: a positive imbalance makes swapping less likely
PushBack == Done < Pairs => LET al == Alpha(K, first, Done + 1) IN
              /\ al > 0 => P < 5000
              /\ al < 0 => P > 5000
SigmaGrows == Done < Pairs => Sigma2(K, cc, Done + 1) >= Sigma2(K, cc, Done)
================================================================================
