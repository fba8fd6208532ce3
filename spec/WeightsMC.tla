-------------------------------- MODULE WeightsMC -------------------------------
(* Weights on the simplex (in units of 1/D) moved one unit at a time downhill on     *)
(* F(w) = w'Kw - 2 w'z: the optimality conditions used on recorded weights are       *)
(* sufficient for a minimum over the whole simplex grid, and descent never leaves it *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M, D, DiagVals, OffVals, ZVals
VARIABLES K, z, w
vars == <<K, z, w>>
P == 1..M
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Pairs == {p \in P \X P : p[1] < p[2]}
Sym(o, d) == [x \in P |-> [y \in P |-> IF x = y THEN d[x] ELSE IF x < y THEN o[<<x, y>>] ELSE o[<<y, x>>]]]
Simplex == {u \in [P -> 0..D] : Sum(u, M) = D}
\* half the gradient, times D
G(u) == [c \in P |-> Sum([j \in P |-> K[c][j] * u[j]], M) - D * z[c]]
F(u) == Sum([a \in P |-> u[a] * (Sum([j \in P |-> K[a][j] * u[j]], M) - 2 * D * z[a])], M)
\* positive semidefinite: diagonally dominant is enough here
Dominant(A) == \A a \in P : A[a][a] >= Sum([b \in P |-> IF a = b THEN 0 ELSE IF A[a][b] < 0 THEN -A[a][b] ELSE A[a][b]], M)
Init == /\ \E o \in [Pairs -> OffVals], d \in [P -> DiagVals] : K = Sym(o, d) /\ Dominant(K)
        /\ z \in [P -> ZVals]
        /\ w \in Simplex
Move(i, j) == [c \in P |-> IF c = i THEN w[c] - 1 ELSE IF c = j THEN w[c] + 1 ELSE w[c]]
Next == \E i, j \in P : /\ i # j /\ w[i] > 0 /\ F(Move(i, j)) < F(w)
                        /\ w' = Move(i, j) /\ UNCHANGED <<K, z>>
Spec == Init /\ [][Next]_vars
MinG(u) == CHOOSE v \in {G(u)[c] : c \in P} : \A c \in P : v <= G(u)[c]
Gap(u) == Sum([c \in P |-> u[c] * G(u)[c]], M) - D * MinG(u)
InSimplex == w \in Simplex
\* the gap bounds the distance to the best value (F is twice the primitive of G)
GapBounds == \A u \in Simplex : F(w) - F(u) <= 2 * Gap(w)
Optimal == Gap(w) = 0 => \A u \in Simplex : F(w) <= F(u)
Descends == [][F(w') < F(w)]_vars
=================================================================================
