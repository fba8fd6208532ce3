----------------------------- MODULE LeastSquares -----------------------------
(* What "the regularised least-squares solution of smallest norm" means, over exact *)
(* integers: M = A + lambda I' (doubled), X and B scaled by a common factor.        *)
(*   Stationary: M (M X - B) = 0   (M symmetric)                                    *)
(*   Smallest:   X is orthogonal to every vector M annihilates                      *)
(* The two together determine X (LeastSquaresMC checks that they do).               *)
EXTENDS Integers, Sequences
RECURSIVE SumL(_, _)
SumL(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumL(f, k - 1)
DotL(u, v) == SumL([i \in 1..Len(u) |-> u[i] * v[i]], Len(u))
AbsL(x) == IF x < 0 THEN -x ELSE x
\* twice the regularised matrix; lam2 = 2 lambda, either sign; id the diagonal of the identity
Reg2(A, lam2, id) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> 2 * A[i][j] + (IF i = j THEN AbsL(lam2) * id[i] ELSE 0)]]
MV(M, v) == [i \in 1..Len(M) |-> DotL(M[i], v)]
Minus(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
\* M2 x = 2 b up to the residual
Residual(M2, x, b) == Minus(MV(M2, x), [i \in 1..Len(b) |-> 2 * b[i]])
Null(M2, R) == {v \in [1..Len(M2) -> R] : \A i \in 1..Len(M2) : DotL(M2[i], v) = 0}
===============================================================================
