-------------------------------- MODULE FixMath --------------------------------
(* Fixed-point arithmetic with four decimals (S = 10^4) inside TLC's 32-bit         *)
(* integers: products, quotients, square roots, exp of a non-positive argument,     *)
(* cosine.  Operators are total; Big marks an overflow guard the caller must heed.  *)
EXTENDS Integers, Sequences
S == 10000
AbsF(x) == IF x < 0 THEN -x ELSE x
Round(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
\* product of two fixed-point numbers; split so that |a| * |b| up to 2^31 * S is safe
Mul(a, b) ==
  LET sg == IF (a < 0) # (b < 0) THEN -1 ELSE 1
      x == AbsF(a)
      y == AbsF(b)
      xi == x \div S
      xf == x % S
      yi == y \div S
      yf == y % S
  IN sg * (xi * y + xf * yi + Round(xf * yf, S))
\* quotient a / b of fixed-point numbers (b # 0), |a| < 2*10^5 units handled by long division
Quot(a, b) ==
  LET sg == IF (a < 0) # (b < 0) THEN -1 ELSE 1
      x == AbsF(a)
      y == AbsF(b)
      q0 == x \div y
      r0 == x % y
      q1 == (r0 * 100) \div y
      r1 == (r0 * 100) % y
      q2 == (r1 * 100 + (y \div 2)) \div y
  IN sg * (q0 * S + q1 * 100 + q2)
RECURSIVE ISqrtBin(_, _, _)
ISqrtBin(n, lo, hi) ==   \* largest r with r*r <= n, lo <= r < hi
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m <= n \div m THEN ISqrtBin(n, m, hi) ELSE ISqrtBin(n, lo, m)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtBin(n, 1, 46341)
\* square root of a non-negative fixed-point number: sqrt(a*S)
Sqrt(a) == IF a <= 200000 THEN ISqrt(a * S) ELSE IF a <= 20000000 THEN 10 * ISqrt(a * 100) ELSE 100 * ISqrt(a)
ExpTab == <<10000, 3679, 1353, 498, 183, 67, 25, 9, 3, 1>>   \* exp(-n), n = 0..9
\* exp(-f), 0 <= f < 1 by its Taylor series in Horner form
ExpFrac(f) ==
  LET h6 == S - Round(f, 6)
      h5 == S - Mul(Round(f, 5), h6)
      h4 == S - Mul(Round(f, 4), h5)
      h3 == S - Mul(Round(f, 3), h4)
      h2 == S - Mul(Round(f, 2), h3)
  IN S - Mul(f, h2)
ExpNeg(t) == IF t >= 10 * S THEN 0 ELSE Mul(ExpTab[(t \div S) + 1], ExpFrac(t % S))
\* cosine: reduce modulo 2 pi, then Taylor on [-pi, pi] halved twice
TwoPi == 62832
CosSmall(f) ==           \* |f| <= 0.8
  LET q == Mul(f, f)
      h3 == S - Round(q, 30)
      h2 == S - Mul(Round(q, 12), h3)
  IN S - Mul(Round(q, 2), h2)
Double(c) == 2 * Mul(c, c) - S
Cos(f) == LET r == AbsF(f) % TwoPi
              z == IF r > TwoPi \div 2 THEN TwoPi - r ELSE r
          IN Double(Double(CosSmall(Round(z, 4))))
RECURSIVE PowF(_, _)
PowF(a, n) == IF n = 0 THEN S ELSE Mul(a, PowF(a, n - 1))
================================================================================
