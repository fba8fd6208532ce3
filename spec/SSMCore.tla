-------------------------------- MODULE SSMCore --------------------------------
(* Sliced score matching of an affine network s(x) = x W + b (a score network       *)
(* without hidden layers) and of a network with one hidden layer, over exact        *)
(* integers.  The objective of one row x and one projection v is                    *)
(*      v' J v + (v's)^2 / 2          (J the derivative of s at x)                  *)
(*      v' J v + |s|^2 / 2            in the analytic variant.                      *)
(* Gradients are those a training step must descend along.                          *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumS(_, _)
SumS(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumS(f, k - 1)
DotS(u, v) == SumS([i \in 1..Len(u) |-> u[i] * v[i]], Len(u))
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
RowTimes(v, M) == [j \in 1..Len(M[1]) |-> DotS(v, Col(M, j))]
Score(W, b, x) == [j \in 1..Len(b) |-> DotS(x, Col(W, j)) + b[j]]
\* twice the objective
Obj2(W, b, x, v, an) ==
  LET s == Score(W, b, x)
  IN 2 * DotS(v, RowTimes(v, W)) + (IF an THEN DotS(s, s) ELSE DotS(v, s) * DotS(v, s))
\* gradient with respect to <<W, b>>
GradB(W, b, x, v, an) ==
  LET s == Score(W, b, x)
      q == DotS(v, s)
  IN [j \in 1..Len(b) |-> IF an THEN s[j] ELSE q * v[j]]
GradW(W, b, x, v, an) ==
  LET g == GradB(W, b, x, v, an)
  IN [i \in 1..Len(W) |-> [j \in 1..Len(b) |-> v[i] * v[j] + x[i] * g[j]]]
AddV(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
AddM(A, B) == [i \in 1..Len(A) |-> AddV(A[i], B[i])]
NegV(u) == [i \in 1..Len(u) |-> -u[i]]
NegM(A) == [i \in 1..Len(A) |-> NegV(A[i])]
ZeroV(d) == [i \in 1..d |-> 0]
ZeroM(d) == [i \in 1..d |-> ZeroV(d)]
\* sums over a batch (a sequence of row numbers), every row with all of its own projections
Pairs(batch, V) == [k \in 1..(Len(batch) * Len(V[1])) |->
                      <<batch[1 + (k - 1) \div Len(V[1])], 1 + ((k - 1) % Len(V[1]))>>]
RECURSIVE SumB(_, _, _, _, _, _, _)
SumB(W, b, X, V, an, P, k) ==
  IF k = 0 THEN ZeroV(Len(b))
  ELSE AddV(GradB(W, b, X[P[k][1]], V[P[k][1]][P[k][2]], an), SumB(W, b, X, V, an, P, k - 1))
RECURSIVE SumW(_, _, _, _, _, _, _)
SumW(W, b, X, V, an, P, k) ==
  IF k = 0 THEN ZeroM(Len(b))
  ELSE AddM(GradW(W, b, X[P[k][1]], V[P[k][1]][P[k][2]], an), SumW(W, b, X, V, an, P, k - 1))
BatchB(W, b, X, V, an, batch) == LET P == Pairs(batch, V) IN SumB(W, b, X, V, an, P, Len(P))
BatchW(W, b, X, V, an, batch) == LET P == Pairs(batch, V) IN SumW(W, b, X, V, an, P, Len(P))
\* gradient descent with unit step on one row and one projection at a time
RECURSIVE Descend(_, _, _, _, _, _)
Descend(W, b, X, V, an, rows) ==
  IF rows = <<>> THEN <<W, b>>
  ELSE LET r == <<Head(rows)>>
       IN Descend(AddM(W, NegM(BatchW(W, b, X, V, an, r))), AddV(b, NegV(BatchB(W, b, X, V, an, r))), X, V, an, Tail(rows))
================================================================================
