-------------------------------- MODULE CompressMC --------------------------------
(* The recursion of Compress++ on abstract rows: parts of 4^g rows; four parts are    *)
(* joined and half of the rows kept (any half), until one part is left, which is      *)
(* thinned to the requested size.  Rows never repeat and the sizes follow 2^(k+g).     *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS MaxN, MaxG
VARIABLES n, g, size, stage, parts
vars == <<n, g, size, stage, parts>>
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE Depth(_)
Depth(x) == IF x < 4 THEN 0 ELSE 1 + Depth(x \div 4)
Feasible == size <= n /\ g <= Depth(n) /\ size <= Pow(2, g + Depth(n))
N == Pow(4, Depth(n))
\* rows are interchangeable: follow the two extreme choices (keep first / keep last half)
Kth(S, k) == CHOOSE x \in S : Cardinality({y \in S : y <= x}) = k
Lower(S, k) == {x \in S : Cardinality({y \in S : y <= x}) <= k}
Upper(S, k) == S \ Lower(S, Cardinality(S) - k)
Init ==
  /\ n \in 1..MaxN /\ g \in 0..MaxG /\ size \in 1..MaxN
  /\ stage = "new" /\ parts = <<>>
Refuse == stage = "new" /\ ~Feasible /\ stage' = "refused" /\ UNCHANGED <<n, g, size, parts>>
Clip(off) == /\ stage = "new" /\ Feasible /\ off + N <= n
             /\ stage' = "level"
             /\ LET b == Pow(4, g) IN parts' = [i \in 1..(N \div b) |-> ((off + (i - 1) * b) + 1)..(off + i * b)]
             /\ UNCHANGED <<n, g, size>>
Join(low) ==
  /\ stage = "level" /\ Len(parts) > 1
  /\ parts' = [i \in 1..(Len(parts) \div 4) |->
       LET U == parts[4*i-3] \cup parts[4*i-2] \cup parts[4*i-1] \cup parts[4*i] IN
         IF low THEN Lower(U, Cardinality(U) \div 2) ELSE Upper(U, Cardinality(U) \div 2)]
  /\ UNCHANGED <<n, g, size, stage>>
Thin == /\ stage = "level" /\ Len(parts) = 1
        /\ parts' = <<Lower(parts[1], size)>>
        /\ stage' = "done" /\ UNCHANGED <<n, g, size>>
Next == Refuse \/ (\E off \in {0, n - N} : Clip(off)) \/ (\E b \in BOOLEAN : Join(b)) \/ Thin
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Log4(_)
Log4(x) == IF x = 1 THEN 0 ELSE 1 + Log4(x \div 4)
Level == Depth(n) - Log4(Len(parts))
Sizes == stage = "level" => \A i \in 1..Len(parts) : Cardinality(parts[i]) = Pow(2, Level + g)
Disjoint == \A i, j \in 1..Len(parts) : i # j => parts[i] \cap parts[j] = {}
InData == \A i \in 1..Len(parts) : parts[i] \subseteq 1..n
Answer == stage = "done" => Cardinality(parts[1]) = size
Ends == <>(stage \in {"refused", "done"})
================================================================================
