--------------------------------- MODULE KTCore ---------------------------------
(* Self-balancing halving (kernel thinning).  Consecutive pairs (2i-1, 2i) of the     *)
(* data are split between two halves; the pair is swapped with probability            *)
(*     1/2 (1 - alpha / a)     clipped to [0, 1],                                      *)
(* alpha = sum over earlier points of (k(s,x)-k(s,y)) - 2 * the same over the first    *)
(* half so far, b^2 = k(x,x)+k(y,y)-2k(x,y), a = max(b sigma c, b^2), c^2 = 2 ln(2/d), *)
(* sigma^2 grows by max(0, b^2 (1 + (b^2 - 2a) sigma^2 / a^2)).                        *)
(* Integer kernel K; sigma^2, a in thousandths, probabilities in ten-thousandths.      *)
EXTENDS Integers, Sequences
RECURSIVE TSumTo(_, _)
TSumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + TSumTo(s, k - 1)
TSum(s) == TSumTo(s, Len(s))
RECURSIVE RootIn(_, _, _)
RootIn(x, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET mid == (lo + hi) \div 2 IN IF mid * mid <= x THEN RootIn(x, mid, hi) ELSE RootIn(x, lo, mid)
Root(x) == RootIn(x, 0, 46340)
TMax(a, b) == IF a > b THEN a ELSE b
B2(K, i) == K[2*i-1][2*i-1] + K[2*i][2*i] - 2 * K[2*i-1][2*i]
\* a^2 and a, in thousandths; cc = 100 c^2
A2(b2, s2, cc) == TMax((b2 * s2 * cc) \div 100, 1000 * b2 * b2)
A1(a2) == IF a2 < 2000000 THEN Root(1000 * a2) ELSE 10 * Root(10 * a2)
Grow(b2, s2, cc) ==
  IF b2 <= 0 THEN s2
  ELSE LET a2 == A2(b2, s2, cc)
           x == 1000 * b2 - 2 * A1(a2)
           f == 1000 + (x * ((1000 * s2) \div a2)) \div 1000
       IN s2 + TMax(0, b2 * f)
RECURSIVE Sigma2(_, _, _)
Sigma2(K, cc, i) == IF i = 0 THEN 0 ELSE Grow(TMax(0, B2(K, i)), Sigma2(K, cc, i - 1), cc)
\* F : indices in the first half so far (pairs 1 .. i-1)
Alpha(K, F, i) ==
  LET x == 2 * i - 1 y == 2 * i IN
    TSum([t \in 1..(2 * (i - 1)) |-> K[t][x] - K[t][y]]) - 2 * TSum([t \in 1..Len(F) |-> K[F[t]][x] - K[F[t]][y]])
SwapProb(K, cc, F, i) ==
  LET b2 == B2(K, i) al == Alpha(K, F, i)
      a2 == A2(b2, Sigma2(K, cc, i - 1), cc)
  IN IF b2 <= 0 THEN 5000 - 5000 * al ELSE 5000 - (5000 * 1000 * al) \div A1(a2)
================================================================================
