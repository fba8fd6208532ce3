-------------------------------- MODULE ScoreMC --------------------------------
(* Small exhaustive facts about the score semantics: the kernel density score is    *)
(* the logarithmic derivative of the density, does not depend on the order, the     *)
(* repetition or the position of the data, and stays within the range of the        *)
(* displacements; the Stein kernel is the density-weighted mixed derivative, is     *)
(* symmetric and non-negative on the diagonal.                                      *)
EXTENDS ScoreCore, TLC
CONSTANTS Lim
VARIABLES data, q, h
vars == <<data, q, h>>
Coord == (-Lim)..Lim
Init == data = <<>> /\ q \in Coord /\ h \in {5000, 7500, 10000, 20000}
Next == data = <<>> /\ data' \in UNION {[1..n -> Coord] : n \in 1..3} /\ UNCHANGED <<q, h>>
Spec == Init /\ [][Next]_vars
P(f) == [i \in 1..Len(f) |-> <<f[i]>>]
Near(a, b, t) == AbsF(a - b) <= t
Sc(f, x) == KDEScore(P(f), h, <<x>>)[1]
\* p(x + 1/4) - p(x - 1/4) against the integral of score * p (Simpson), where p is not tiny
IsLogDerivative == data # <<>> =>
  LET p(x) == Density(P(data), h, <<x>>)
      lhs == p(q + 1) - p(q - 1)
      rhs == Round(Mul(p(q - 1), Sc(data, q - 1)) + 4 * Mul(p(q), Sc(data, q)) + Mul(p(q + 1), Sc(data, q + 1)), 12)
  IN Near(lhs, rhs, 30 + AbsF(lhs) \div 50)
Shifted == data # <<>> => Sc([i \in 1..Len(data) |-> data[i] + 3], q + 3) = Sc(data, q)
Reversed == data # <<>> => Near(Sc([i \in 1..Len(data) |-> data[Len(data) + 1 - i]], q), Sc(data, q), 1)
Repeated == data # <<>> => Near(Sc(data \o data, q), Sc(data, q), 6)
InRange == data # <<>> =>
  LET D(i) == Quot((data[i] - q) * 2500, Mul(h, h))
  IN /\ \E i \in 1..Len(data) : D(i) <= Sc(data, q) + 8
     /\ \E i \in 1..Len(data) : D(i) >= Sc(data, q) - 8
\* Stein kernels of integer expressions
E(o, p, s) == [op |-> o, p |-> p, s |-> s]
Exprs == {E("lin", <<1, 0>>, <<>>), E("lin", <<2, 1>>, <<>>), E("poly", <<1, 1, 2>>, <<>>), E("poly", <<2, 1, 3>>, <<>>),
          E("mul", <<>>, <<E("lin", <<1, 1>>, <<>>), E("poly", <<1, 0, 2>>, <<>>)>>), E("pow", <<2>>, <<E("lin", <<1, 2>>, <<>>)>>)}
Pts2 == {<<1, -1>>, <<2, 1>>, <<0, 2>>}
SteinOK ==
  (h = 5000 /\ Len(data) = 3) =>
  \A ex \in Exprs, x \in Pts2, y \in Pts2 :
    LET A == <<<<data[1], 0>>, <<1, data[2]>>>>
        b == <<data[3], q>>
        s(z) == Affine(A, b, z)
        K(u, v) == Stein(Meaning(ex, u, v), s(u), s(v))
    IN /\ K(x, y) = SteinDual(ex, x, y, s(x), s(y))
       /\ K(x, y) = K(y, x)
       /\ K(x, x) >= 0
================================================================================
