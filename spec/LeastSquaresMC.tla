---------------------------- MODULE LeastSquaresMC ----------------------------
(* Gaussian-elimination-free characterisation of the solution, explored over all    *)
(* small positive semidefinite systems: at most one grid point satisfies the two    *)
(* conditions, padding a system with zero rows and a partial identity pads its      *)
(* solution with zeros, a negative parameter acts as its absolute value.            *)
EXTENDS LeastSquares, FiniteSets, TLC
CONSTANTS Ent, Lam, Grid
VARIABLES A, lam, b, pad
vars == <<A, lam, b, pad>>
PSD == {m \in [1..2 -> [1..2 -> Ent]] : m[1][2] = m[2][1] /\ m[1][1] >= 0 /\ m[2][2] >= 0 /\ m[1][1] * m[2][2] >= m[1][2] * m[1][2]}
Init == A \in PSD /\ lam = 0 /\ b \in [1..2 -> {0, 1, 3}] /\ pad = 0
Regularise == lam = 0 /\ \E q \in Lam : lam' \in {q, -q} /\ UNCHANGED <<A, b, pad>>
Pad == pad = 0 /\ pad' = 1 /\ UNCHANGED <<A, lam, b>>
Next == Regularise \/ Pad
Spec == Init /\ [][Next]_vars
Id(n) == [i \in 1..n |-> 1]
MA == IF pad = 0 THEN A ELSE [i \in 1..3 |-> [j \in 1..3 |-> IF i = 3 \/ j = 3 THEN 0 ELSE A[i][j]]]
MI == IF pad = 0 THEN Id(2) ELSE <<1, 1, 0>>
MB == IF pad = 0 THEN b ELSE Append(b, 0)
Good(M2, x, bb) ==
  /\ MV(M2, Residual(M2, x, bb)) = [i \in 1..Len(bb) |-> 0]
  /\ \A v \in Null(M2, {-2, -1, 0, 1, 2}) : DotL(v, x) = 0
\* solutions on the grid of sixths, so that many are hit exactly
Sols(M2, bb) == {x \in [1..Len(bb) -> Grid] : Good(M2, x, [i \in 1..Len(bb) |-> 6 * bb[i]])}
S2 == Sols(Reg2(A, lam, Id(2)), b)
Unique == Cardinality(S2) <= 1
PaddingPads == pad = 1 => Sols(Reg2(MA, lam, MI), MB) = {Append(x, 0) : x \in S2}
SignFree == S2 = Sols(Reg2(A, -lam, Id(2)), b)
Invertible == \A x \in S2 : lam # 0 => Residual(Reg2(A, lam, Id(2)), x, [i \in 1..2 |-> 6 * b[i]]) = <<0, 0>>
===============================================================================
