------------------------------- MODULE MapReduceMC -------------------------------
(* Map-reduce as a process on the survivors: while more than leaf rows survive, they  *)
(* are halved repeatedly into partitions of nearly equal size (node by node, the      *)
(* second half taking an odd row), each partition is reduced to m rows, and the        *)
(* survivors are joined; a last reduction leaves m rows.                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxM, MaxLeaf
VARIABLES n, m, leaf, level, done
vars == <<n, m, leaf, level, done>>
Max2(a, b) == IF a > b THEN a ELSE b
\* number of leaves of the binary tree whose leaves hold at most 2 * half rows
RECURSIVE Grow(_, _, _)
Grow(k, half, size) == IF 2 * k * half <= size - 1 THEN Grow(2 * k, half, size) ELSE k
Leaves(size, lf) == Grow(1, Max2(1, lf \div 2), size)
\* sizes after splitting into k parts by halving: all are floor or ceil of size / k
RECURSIVE Halve(_, _)
Halve(size, k) == IF k = 1 THEN {size} ELSE Halve(size \div 2, k \div 2) \cup Halve(size - size \div 2, k \div 2)
Init == /\ n \in 1..MaxN /\ m \in 1..MaxM /\ leaf \in 2..MaxLeaf
        /\ leaf >= 2 * m /\ m <= n
        /\ level = 0 /\ done = FALSE
Map == /\ ~done /\ n > leaf
       /\ n' = Leaves(n, leaf) * m
       /\ level' = level + 1
       /\ UNCHANGED <<m, leaf, done>>
Final == ~done /\ n <= leaf /\ done' = TRUE /\ n' = m /\ UNCHANGED <<m, leaf, level>>
Next == Map \/ Final
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
PartitionsFit == (~done /\ n > leaf) =>
    \A s \in Halve(n, Leaves(n, leaf)) : s >= m /\ s <= leaf
EqualUpToOne == (~done /\ n > leaf) =>
    \A s, t \in Halve(n, Leaves(n, leaf)) : s - t <= 1
FinalFeasible == (~done /\ n <= leaf) => n >= m
Shrinks == [][n' < n \/ done']_vars
Stops == <>done
ExactSize == done => n = m
================================================================================
