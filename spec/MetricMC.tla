-------------------------------- MODULE MetricMC --------------------------------
(* The metric axioms on the definitions, for all small integer datasets on a line     *)
(* with a positive definite kernel (1 + x y)^2 and all small weights; one action       *)
(* appends a zero-weighted point, another splits a point's weight over two copies,     *)
(* another scales the weights: none may change the value.                              *)
EXTENDS Metric
CONSTANTS Xs, Ws, MaxN
VARIABLES x, u, y, v, step, old
vars == <<x, u, y, v, step, old>>
kern(a, b) == (1 + a * b) * (1 + a * b)
Gram(p, q) == [i \in 1..Len(p) |-> [j \in 1..Len(q) |-> kern(p[i], q[j])]]
Val(p, s, q, t) == SqMMD(Gram(p, p), Gram(q, q), Gram(p, q), s, t)
Seqs(S, k) == [1..k -> S]
Init ==
  /\ \E n \in 1..MaxN, m \in 1..MaxN :
       /\ x \in Seqs(Xs, n) /\ y \in Seqs(Xs, m)
       /\ u \in Seqs(Ws, n) /\ v \in Seqs(Ws, m)
  /\ MSum(u) > 0 /\ MSum(v) > 0
  /\ step = 0
  /\ old = Val(x, u, y, v)
Pad == \E c \in Xs : x' = Append(x, c) /\ u' = Append(u, 0) /\ UNCHANGED <<y, v, old>> /\ step' = 1
Split == \E i \in 1..Len(x) : /\ u[i] >= 2
                              /\ x' = Append(x, x[i])
                              /\ u' = Append([u EXCEPT ![i] = @ - 1], 1)
                              /\ UNCHANGED <<y, v, old>> /\ step' = 1
Scale == /\ u' = [i \in 1..Len(u) |-> 2 * u[i]] /\ v' = [i \in 1..Len(v) |-> 3 * v[i]]
         /\ UNCHANGED <<x, y, old>> /\ step' = 1
Next == step = 0 /\ (Pad \/ Split \/ Scale)
Spec == Init /\ [][Next]_vars
Eq(a, b) == a[1] * b[2] = b[1] * a[2]
Now == Val(x, u, y, v)
Unchanged == Eq(Now, old)
NonNegative == Now[1] >= 0
Symmetric == Eq(Now, Val(y, v, x, u))
ZeroOnSame == Val(x, u, x, u)[1] = 0
================================================================================
