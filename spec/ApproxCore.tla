------------------------------- MODULE ApproxCore -------------------------------
(* Regression approximation of a Gram row mean, over exact integers.  K is a kernel *)
(* table over points 1..n, F the sequence of feature (kernel) points, I the set of  *)
(* training points, b the target sums on the training points (d times the mean).    *)
(* Fit(K, F, I, b, i) is the value at point i of the smallest-norm least-squares    *)
(* fit, as <<numerator, denominator>> of d times the approximation.                 *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumA(_, _)
SumA(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumA(f, k - 1)
Drop(M, i, j) == [a \in 1..(Len(M) - 1) |-> [c \in 1..(Len(M) - 1) |-> M[IF a < i THEN a ELSE a + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1 ELSE IF Len(M) = 1 THEN M[1][1]
          ELSE IF Len(M) = 2 THEN M[1][1] * M[2][2] - M[1][2] * M[2][1]
          ELSE SumA([j \in 1..Len(M) |-> IF M[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Drop(M, 1, j))], Len(M))
\* M with column j replaced by v
Put(M, j, v) == [a \in 1..Len(M) |-> [c \in 1..Len(M) |-> IF c = j THEN v[a] ELSE M[a][c]]]
RECURSIVE Order(_)
Order(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE v \in T : \A u \in T : v <= u IN <<m>> \o Order(T \ {m})
\* rows of the training system: t x k
Rows(K, F, ord) == [s \in 1..Len(ord) |-> [j \in 1..Len(F) |-> K[ord[s]][F[j]]]]
Dot2(u, v, k) == SumA([q \in 1..k |-> u[q] * v[q]], k)
\* all fitted values at once: [den, num(1..n)], den = 0 when the system is singular
FitAll(K, F, ord, b) ==
  LET n == Len(K)
      k == Len(F)
      t == Len(ord)
      A == Rows(K, F, ord)
      Col(j) == [s \in 1..t |-> A[s][j]]
      over == t >= k
      sz == IF over THEN k ELSE t
      G == IF over THEN [i \in 1..k |-> [j \in 1..k |-> Dot2(Col(i), Col(j), t)]]
           ELSE [i \in 1..t |-> [j \in 1..t |-> Dot2(A[i], A[j], k)]]
      h == IF over THEN [j \in 1..k |-> Dot2(Col(j), b, t)] ELSE b
      den == Det(G)
      y == [j \in 1..sz |-> Det(Put(G, j, h))]
      feat(i) == [j \in 1..k |-> K[i][F[j]]]
  IN [den |-> den,
      num |-> [i \in 1..n |-> IF over THEN Dot2(feat(i), y, k)
                              ELSE SumA([s \in 1..t |-> y[s] * Dot2(feat(i), A[s], k)], t)]]
\* target sums
AllSums(K, ord) == [s \in 1..Len(ord) |-> SumA([j \in 1..Len(K) |-> K[j][ord[s]]], Len(K))]
OwnSums(K, ord) == [s \in 1..Len(ord) |-> SumA([j \in 1..Len(ord) |-> K[ord[j]][ord[s]]], Len(ord))]
\* farthest-first anchors: 1 first, then a point whose largest similarity to the anchors is smallest
MaxSim(K, F, i) == CHOOSE v \in {K[i][F[j]] : j \in 1..Len(F)} : \A j \in 1..Len(F) : K[i][F[j]] <= v
NextAnchors(K, F) == {i \in 1..Len(K) : \A u \in 1..Len(K) : MaxSim(K, F, i) <= MaxSim(K, F, u)}
RECURSIVE Anchors(_, _)
Anchors(K, k) == IF k = 1 THEN {<<1>>} ELSE UNION {{Append(F, i) : i \in NextAnchors(K, F)} : F \in Anchors(K, k - 1)}
=================================================================================
