------------------------------ MODULE KernelAlgMC ------------------------------
(* Kernel expressions built bottom up on a stack.  In every reachable expression the *)
(* dual-number meaning agrees with the chain rules, is symmetric (swapping the       *)
(* arguments swaps the gradients) and, on the diagonal, non-negative.                *)
(* With Emit the finished expressions are printed for replay.                        *)
EXTENDS KernelAlg, TLC, Json, FiniteSets
CONSTANTS Depth, MaxDeg, Emit, Leaves
VARIABLES stack, steps
vars == <<stack, steps>>
E(o, p, s) == [op |-> o, p |-> p, s |-> s]
LeafSet ==
  IF Leaves = "few" THEN {E("lin", <<1, 0>>, <<>>), E("lin", <<2, 1>>, <<>>), E("poly", <<1, 1, 2>>, <<>>)}
  ELSE {E("lin", <<a, c>>, <<>>) : a \in 1..3, c \in 0..2} \cup {E("poly", <<a, c, n>>, <<>>) : a \in 1..2, c \in 0..1, n \in 2..3}
RECURSIVE Deg(_)
Deg(ex) == CASE ex.op = "lin" -> 1 [] ex.op = "poly" -> ex.p[3] [] ex.op = "const" -> 0
             [] ex.op = "add" -> LET a == Deg(ex.s[1]) b == Deg(ex.s[2]) IN IF a > b THEN a ELSE b
             [] ex.op = "mul" -> Deg(ex.s[1]) + Deg(ex.s[2])
             [] ex.op = "pow" -> ex.p[1] * Deg(ex.s[1])
Top == stack[Len(stack)]
Snd == stack[Len(stack) - 1]
Push == /\ steps < Depth /\ Len(stack) < 3 /\ \E q \in LeafSet : stack' = Append(stack, q)
Bin(o) == /\ Len(stack) >= 2
          /\ LET q == E(o, <<>>, <<Snd, Top>>) IN Deg(q) <= MaxDeg /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), q)
Un(q) == Deg(q) <= MaxDeg /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 1), q)
Pow == stack # <<>> /\ \E n \in 1..3 : Un(E("pow", <<n>>, <<Top>>))
WithConst == stack # <<>> /\ \E c \in 0..3, o \in {"add", "mul"} :
   \/ Un(E(o, <<>>, <<Top, E("const", <<c>>, <<>>)>>))
   \/ Un(E(o, <<>>, <<E("const", <<c>>, <<>>), Top>>))
Init == stack = <<>> /\ steps = 0
Count == steps < Depth /\ steps' = steps + 1
Finish == /\ Emit /\ steps = Depth /\ stack # <<>> /\ steps' = Depth + 1 /\ UNCHANGED stack
          /\ \A k \in 1..Len(stack) : PrintT(<<"HIST", ToJson(stack[k])>>)
Next == (Count /\ Push) \/ (Count /\ Bin("add")) \/ (Count /\ Bin("mul")) \/ (Count /\ Pow) \/ (Count /\ WithConst) \/ Finish
Spec == Init /\ [][Next]_vars
Pts == {<<<<1, -1>>, <<2, 1>>>>, <<<<0, 2>>, <<1, 0>>>>, <<<<1, 2>>, <<1, 2>>>>}
RulesAgree == \A k \in 1..Len(stack) : \A q \in Pts : Jet(stack[k], q[1], q[2]) = Meaning(stack[k], q[1], q[2])
Symmetric == \A k \in 1..Len(stack) : \A q \in Pts :
   LET a == Meaning(stack[k], q[1], q[2]) b == Meaning(stack[k], q[2], q[1])
   IN a.v = b.v /\ a.gx = b.gy /\ a.gy = b.gx /\ a.dv = b.dv
DiagonalOK == \A k \in 1..Len(stack) : \A q \in Pts : Meaning(stack[k], q[1], q[1]).v >= 0
\* a 2 x 2 Gram matrix of any expression is positive semidefinite
GramOK == \A k \in 1..Len(stack) : \A q \in Pts :
   LET K(a, b) == Meaning(stack[k], a, b).v
   IN K(q[1], q[1]) < 40000 /\ K(q[2], q[2]) < 40000 => K(q[1], q[2]) * K(q[1], q[2]) <= K(q[1], q[1]) * K(q[2], q[2])
================================================================================
