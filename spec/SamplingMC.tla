------------------------------- MODULE SamplingMC -------------------------------
(* Successive sampling as a process: draws with integer weights, with or without     *)
(* replacement, carrying the exact probability (as a fraction) of the path; checks   *)
(* that path probabilities sum as specified and that repeats are impossible.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, WVals, M
VARIABLES w, repl, drawn, num, den
vars == <<w, repl, drawn, num, den>>
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Left == IF repl THEN 1..N ELSE (1..N) \ {drawn[i] : i \in 1..Len(drawn)}
Mass == SumOver(w, Left)
Init == /\ w \in [1..N -> WVals]
        /\ repl \in BOOLEAN
        /\ Cardinality({x \in 1..N : w[x] > 0}) >= M
        /\ drawn = <<>> /\ num = 1 /\ den = 1
Next == /\ Len(drawn) < M
        /\ \E x \in Left : /\ w[x] > 0
                           /\ drawn' = Append(drawn, x)
                           /\ num' = num * w[x] /\ den' = den * Mass
        /\ UNCHANGED <<w, repl>>
Spec == Init /\ [][Next]_vars
CanDraw == Len(drawn) < M => Mass > 0
NoRepeats == repl \/ \A i, j \in 1..Len(drawn) : i # j => drawn[i] # drawn[j]
NeverZero == \A i \in 1..Len(drawn) : w[drawn[i]] > 0
Probability == num > 0 /\ num <= den
\* the closed forms used by SamplingTrace for two draws
Tot == SumOver(w, 1..N)
PairForm == (Len(drawn) = 2 /\ ~repl) =>
   LET x == drawn[1] y == drawn[2] IN
     \* P(x then y) + P(y then x) equals PairNum / PairDen
     (w[x] * w[y] * (Tot - w[y]) + w[y] * w[x] * (Tot - w[x])) =
       w[x] * w[y] * (2 * Tot - w[x] - w[y])
     /\ num * (Tot * (Tot - w[x])) = den * w[x] * w[y]
================================================================================
