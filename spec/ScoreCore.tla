------------------------------- MODULE ScoreCore -------------------------------
(* Scores and Stein kernels.  Points are integer vectors in quarters; bandwidths    *)
(* and results have four decimals (FixMath).                                        *)
EXTENDS KernelAlg, FixMath, FiniteSets
SqQ(x, y) == SumK([i \in 1..Len(x) |-> (x[i] - y[i]) * (x[i] - y[i])], Len(x)) * 625
MinOf(f, n) == CHOOSE v \in {f[i] : i \in 1..n} : \A i \in 1..n : v <= f[i]
\* weights of the data at x, relative to the nearest point (the common factor cancels)
Tw(data, h, x) == [i \in 1..Len(data) |-> Quot(SqQ(data[i], x), 2 * Mul(h, h))]
Wts(data, h, x) == LET t == Tw(data, h, x) m == MinOf(t, Len(t)) IN [i \in 1..Len(t) |-> ExpNeg(t[i] - m)]
\* gradient of the log density: weighted average displacement over the squared bandwidth
KDEScore(data, h, x) ==
  LET w == Wts(data, h, x)
      n == Len(data)
      tot == SumK(w, n)
  IN [j \in 1..Len(x) |-> Quot(Quot(SumK([i \in 1..n |-> Mul(w[i], (data[i][j] - x[j]) * 2500)], n), tot), Mul(h, h))]
Density(data, h, x) == SumK([i \in 1..Len(data) |-> ExpNeg(Tw(data, h, x)[i])], Len(data))
\* Stein kernel of a base kernel with jet m and scores sx, sy
Stein(m, sx, sy) == m.dv + DotZ(m.gx, sy) + DotZ(m.gy, sx) + m.v * DotZ(sx, sy)
\* the same as (1 / p(x) p(y)) div_x div_y [ p(x) k(x, y) p(y) ], coordinate by coordinate
SteinDual(ex, x, y, sx, sy) ==
  SumK([i \in 1..Len(x) |->
     DMul(DMul([v |-> 1, e |-> sx[i], d |-> 0, m |-> 0], Dual(ex, x, y, i)), [v |-> 1, e |-> 0, d |-> sy[i], m |-> 0]).m], Len(x))
\* an affine score A x + b
Affine(A, b, x) == [i \in 1..Len(x) |-> DotZ(A[i], x) + b[i]]
--------------------------------------------------------------------------------
(* Conversion: a kernel is [base, stein, src]; src says where its score comes from. *)
(* A supplied matcher decides; otherwise an existing score stays, and a plain       *)
(* kernel gets a kernel density score with its own length scale (1 if it has none). *)
Convert(k, mt, data) ==
  CASE mt # "none" -> [base |-> k.base, stein |-> TRUE, src |-> <<mt, data>>]
    [] k.stein -> k
    [] OTHER -> [base |-> k.base, stein |-> TRUE, src |-> <<"own", data>>]
================================================================================
