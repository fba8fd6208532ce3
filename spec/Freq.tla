--------------------------------- MODULE Freq ---------------------------------
(* Statistical acceptance of observed frequencies, in integer arithmetic.        *)
(* num[i]/den is the specified probability of outcome i; c[i] the number of      *)
(* times it was observed in N independent draws.  An outcome of probability 0    *)
(* must never occur, one of probability 1 always; otherwise the count must lie   *)
(* within 6 standard deviations plus 3 of its expectation.                       *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
FreqOK(c, N, num, den) ==
  IF num = 0 THEN c = 0
  ELSE IF num = den THEN c = N
  ELSE LET off == Abs(c - (N * num) \div den)
           var == (((N * num) \div den) * (den - num)) \div den + 1
       IN off <= 3 \/ (off - 3) * (off - 3) <= 36 * var

RECURSIVE FSum(_, _)
FSum(s, i) == IF i = 0 THEN 0 ELSE s[i] + FSum(s, i - 1)
SumUp(s) == FSum(s, Len(s))
\* all outcomes of one experiment; nums are unnormalised weights
DistOK(cs, nums) ==
  LET N == SumUp(cs) d == SumUp(nums) IN
    d > 0 /\ \A i \in 1..Len(cs) : FreqOK(cs[i], N, nums[i], d)
BadOutcome(cs, nums) ==
  LET N == SumUp(cs) d == SumUp(nums) IN
    CHOOSE i \in 1..Len(cs) : ~FreqOK(cs[i], N, nums[i], d)
================================================================================
