-------------------------------- MODULE RecombMC --------------------------------
(* Recombination as a process: a weighting W of N points is moved along null        *)
(* vectors of the (constant + test function) matrix until one weight vanishes.      *)
(* Weights are integers up to a common factor; the measure is W / |W|.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, PhiMax, WMax, Mixed
VARIABLES phi, w0, w
vars == <<phi, w0, w>>
P == 1..N
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Mass(u) == Sum(u, N)
Mom(u) == Sum([i \in P |-> u[i] * phi[i]], N)
Supp(u) == {i \in P : u[i] # 0}
M == 2
\* circuits of the matrix (constant, phi): signed minimal dependencies, and sums of two of them
Triple(i, j, k) == [p \in P |-> CASE p = i -> phi[k] - phi[j] [] p = j -> phi[i] - phi[k]
                                 [] p = k -> phi[j] - phi[i] [] OTHER -> 0]
Pair(i, j) == [p \in P |-> CASE p = i -> 1 [] p = j -> -1 [] OTHER -> 0]
Circuits(u) ==
  LET s == Supp(u) IN
    {Pair(q[1], q[2]) : q \in {x \in s \X s : x[1] # x[2] /\ phi[x[1]] = phi[x[2]]}} \cup
    {Triple(q[1], q[2], q[3]) : q \in {x \in s \X s \X s : Cardinality({phi[x[1]], phi[x[2]], phi[x[3]]}) = 3}}
Null(u) == LET c == Circuits(u) IN
  c \cup (IF Mixed THEN {v \in {[p \in P |-> q[1][p] + q[2][p]] : q \in c \X c} : \E p \in P : v[p] > 0} ELSE {})
Init == /\ phi \in {f \in [P -> 0..PhiMax] : \A i \in 1..(N - 1) : f[i] <= f[i + 1]} /\ w0 \in [P -> 0..WMax] /\ Mass(w0) > 0 /\ w = w0
\* index k attains the least ratio w/v over the positive entries of v
Least(u, v, k) == v[k] > 0 /\ \A i \in P : v[i] > 0 => u[k] * v[i] <= u[i] * v[k]
Eliminate == \E v \in Null(w) : \E k \in P :
   /\ Least(w, v, k)
   /\ w' = [i \in P |-> w[i] * v[k] - w[k] * v[i]]
   /\ UNCHANGED <<phi, w0>>
Next == Eliminate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NonNegative == \A i \in P : w[i] >= 0
MassKept == Mass(w) > 0
MomentKept == Mom(w) * Mass(w0) = Mom(w0) * Mass(w)
Inside == Supp(w) \subseteq Supp(w0)
FewPoints == Null(w) = {} => Cardinality(Supp(w)) <= M
Shrinks == [][Supp(w') \subseteq Supp(w) /\ Supp(w') # Supp(w)]_vars
Ends == <>[](Null(w) = {})
=================================================================================
