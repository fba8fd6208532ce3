--------------------------------- MODULE Metric ---------------------------------
(* The discrepancies between two weighted finite datasets, as exact rationals       *)
(* <<numerator, denominator>> of the squared value, from kernel matrices.           *)
EXTENDS Integers, Sequences
RECURSIVE MSumTo(_, _)
MSumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + MSumTo(s, k - 1)
MSum(s) == MSumTo(s, Len(s))
Bil(K, u, v) == MSum([a \in 1..Len(u) |-> u[a] * MSum([b \in 1..Len(v) |-> K[a][b] * v[b]])])
\* weighted mean of a kernel matrix is Bil / (|u| |v|); a dataset of total weight zero
\* counts as the zero measure
U1(u) == IF MSum(u) = 0 THEN 1 ELSE MSum(u)
SqMMD(Kxx, Kyy, Kxy, u, v) ==
  LET p == U1(u) q == U1(v) IN
    << q * q * Bil(Kxx, u, u) + p * p * Bil(Kyy, v, v) - 2 * p * q * Bil(Kxy, u, v), p * p * q * q >>
Had(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> A[i][j] * B[i][j]]]
SqJMMD(F, R, u, v) == SqMMD(Had(F.xx, R.xx), Had(F.yy, R.yy), Had(F.xy, R.xy), u, v)

\* kernel Stein discrepancy of the comparison points under the Stein kernel matrix K, weights v:
\* mean of K, plus the sum of the positive Laplacians over m^2, minus the mean log density over m
SqKSD(K, v, lap, logp) ==
  LET m == Len(v) q == U1(v) IN
    << m * m * Bil(K, v, v) + q * q * (MSum(lap) - MSum(logp)), q * q * m * m >>

\* small exact linear algebra
MSgn(j) == IF j % 2 = 1 THEN 1 ELSE -1
MDrop(s, j) == [i \in 1..(Len(s) - 1) |-> IF i < j THEN s[i] ELSE s[i + 1]]
MMinor(A, j) == [i \in 1..(Len(A) - 1) |-> MDrop(A[i + 1], j)]
RECURSIVE MDet(_)
MDet(A) == IF Len(A) = 1 THEN A[1][1]
           ELSE MSum([j \in 1..Len(A) |-> IF A[1][j] = 0 THEN 0 ELSE MSgn(j) * A[1][j] * MDet(MMinor(A, j))])
PutCol(A, c, v) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF j = c THEN v[i] ELSE A[i][j]]]
\* numerators of the solution of A z = b (denominator MDet(A))
Cramer(A, b) == [c \in 1..Len(A) |-> MDet(PutCol(A, c, b))]
PlusLam(A, lam) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> A[i][j] + IF i = j THEN lam ELSE 0]]
Col(A, j) == [i \in 1..Len(A) |-> A[i][j]]
\* average over the weighting points of the squared distance of conditional mean embeddings;
\* C1, C2 : feature kernel of the two datasets (rows) against the weighting points (columns)
SqAMCMD(F1, F2, C1, C2, R1, R2, R12, lam) ==
  LET A == PlusLam(F1, lam) B == PlusLam(F2, lam)
      a == MDet(A) b == MDet(B)
      q == Len(C1[1])
      at(t) == LET s == Cramer(A, Col(C1, t)) r == Cramer(B, Col(C2, t)) IN
                 b * b * Bil(R1, s, s) + a * a * Bil(R2, r, r) - 2 * a * b * Bil(R12, s, r)
  IN << MSum([t \in 1..q |-> at(t)]), q * a * a * b * b >>
===============================================================================
