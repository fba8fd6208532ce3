--------------------------------- MODULE KTTrace ---------------------------------
(* Recorded kernel thinning steps.                                                    *)
(*  half    histogram over keys of the two halves of one halving                      *)
(*  coins   swaps of pairs that nothing biases, over keys                             *)
(*  split   the candidates of a recursive halving                                     *)
(*  choose  candidates and the one kept                                               *)
EXTENDS KTCore, Metric, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
AbsT(x) == IF x < 0 THEN -x ELSE x
Ran(s) == {s[i] : i \in 1..Len(s)}
\* ---- half ----------------------------------------------------------------------
Pre(s, i) == SubSeq(s, 1, i)
CountPre(r, f) == TSum([e \in 1..Len(r.hist) |-> IF Pre(r.hist[e].f, Len(f)) = f THEN r.hist[e].c ELSE 0])
\* c of N with probability p/10000, fixed point slack 0.5 percent of N
ProbOK(c, N, p) ==
  IF p >= 10050 THEN c = N
  ELSE IF p <= -50 THEN c = 0
  ELSE LET q == IF p < 0 THEN 0 ELSE IF p > 10000 THEN 10000 ELSE p
           e == (N * q) \div 10000
           var == ((e * (10000 - q)) \div 10000) + 1
           off == AbsT(c - e) - 3 - N \div 200
       IN off <= 0 \/ off * off <= 36 * var
PairSplit(r) == \A e \in 1..Len(r.hist) :
   /\ Len(r.hist[e].f) = r.h /\ Len(r.hist[e].g) = r.h
   /\ \A i \in 1..r.h : {r.hist[e].f[i], r.hist[e].g[i]} = {2 * i - 1, 2 * i}
LawAt(r, e, i) ==
  LET F == Pre(r.hist[e].f, i - 1) IN
    ProbOK(CountPre(r, Append(F, 2 * i)), CountPre(r, F), SwapProb(r.K, r.cc, F, i))
Half(r) ==
  IF ~PairSplit(r) THEN "a pair is not split between the halves"
  ELSE IF \E e \in 1..Len(r.hist), i \in 1..r.h : ~LawAt(r, e, i) THEN "swaps do not follow the self-balancing law"
  ELSE "ok"
\* ---- split ---------------------------------------------------------------------
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* candidates C (2^m sequences of length s).  Node k of depth t owns 2^(m-t) consecutive
\* candidates; at position i they hold one point of every group of 2^t consecutive points.
Held(C, m, t, k, i) == {C[j][i] : j \in (k * Pow2(m - t) + 1)..((k + 1) * Pow2(m - t))}
SplitV(r) ==
  LET m == r.depth s == r.size C == r.cands IN
  CASE r.n < s * Pow2(m) \/ r.n >= s * Pow2(m + 1) -> "number of halvings is not the largest possible"
    [] Len(C) # Pow2(m) -> "wrong number of candidates"
    [] \E j \in 1..Len(C) : Len(C[j]) # s -> "candidate of the wrong size"
    [] r.carried # 0 -> "candidate does not carry the original dataset"
    [] \E t \in 0..m, k \in 0..(Pow2(m) - 1), i \in 1..s : k < Pow2(t) /\
         \E q \in 0..(Pow2(m - t) - 1) :
           LET lo == (i - 1) * Pow2(m) + q * Pow2(t) IN
             Cardinality(Held(C, m, t, k, i) \cap ((lo + 1)..(lo + Pow2(t)))) # 1
       -> "candidates are not built by halving consecutive pairs of the leading block"
    [] OTHER -> "ok"
\* ---- choose --------------------------------------------------------------------
Ones(k) == [i \in 1..k |-> 1]
Sub(K, a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> K[a[i]][b[j]]]]
All(n) == [i \in 1..n |-> i]
Disc(r, c) == LET d == SqMMD(Sub(r.K, c, c), r.K, Sub(r.K, c, All(r.n)), Ones(Len(c)), r.w)
              IN IF d[1] < 0 THEN 0 ELSE (10000 * (d[1] \div d[2])) + (10000 * (d[1] % d[2])) \div d[2]
Choose(r) ==
  IF ~(r.kept \in Ran(r.cands)) THEN "kept something that is no candidate"
  ELSE IF \E j \in 1..Len(r.cands) : Disc(r, r.cands[j]) < Disc(r, r.kept) - r.eps THEN "kept candidate is not the closest"
  ELSE "ok"
\* ---- coins: alpha is zero throughout, so every swap is a fair coin independent of the others
Coins(r) ==
  CASE \E i \in 1..r.h : ~ProbOK(r.ones[i], r.N, 5000) -> "a swap that nothing biases is not fair"
    [] \E i, j \in 1..r.h : i < j /\ ~ProbOK(r.agree[i][j], r.N, 5000) -> "swaps of different pairs are not independent"
    [] OTHER -> "ok"
Verdict(r) ==
  CASE r.status # "ok" -> "call raised an error: " \o r.status
    [] r.kind = "half" -> Half(r)
    [] r.kind = "coins" -> Coins(r)
    [] r.kind = "split" -> SplitV(r)
    [] r.kind = "choose" -> Choose(r)
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
================================================================================
