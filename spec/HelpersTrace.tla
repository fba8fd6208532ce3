------------------------------- MODULE HelpersTrace -------------------------------
EXTENDS Helpers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Abs(x) == IF x < 0 THEN -x ELSE x
\* entry (i, j) of a lifted function is the function of row i and row j
Pairwise(r) ==
  IF Len(r.out) = Len(r.X) /\ \A i \in 1..Len(r.X) : Len(r.out[i]) = Len(r.Y) /\ \A j \in 1..Len(r.Y) :
       r.out[i][j] = (CASE r.fn = "sq" -> <<SqDist(r.X[i], r.Y[j])>>
                        [] r.fn = "diff" -> Diff(r.X[i], r.Y[j])
                        [] r.fn = "first" -> <<r.X[i][1] + 100 * r.Y[j][1]>>)
  THEN "ok" ELSE "pairwise evaluation is not entry by entry"
\* the recorded value is h^2 (four decimals) where h is the returned length scale: h^2 = median / 2
Median(r) == IF Abs(4 * r.sq - 10000 * TwiceMedian(r.X)) <= r.tol THEN "ok" ELSE "length scale is not the median heuristic"
Thresh(r) == IF r.out = Threshold(r.x, r.t) THEN "ok" ELSE "negative precision threshold is wrong"
Rep(r) == IF r.out = Repeat(r.x, r.k) THEN "ok" ELSE "leaves are not repeated to the requested length"
\* zero padding of every array leaf along its first axis
Pad(r) ==
  CASE r.k < 0 /\ r.refused -> "ok"
    [] r.k < 0 -> "negative padding accepted"
    [] r.refused -> "padding refused"
    [] r.out # [a \in 1..Len(r.x) |-> r.x[a] \o [i \in 1..r.k |-> [j \in 1..Len(r.x[a][1]) |-> 0]]] -> "leaves are not zero padded along the leading axis"
    [] ~r.kept -> "other leaves were changed by padding"
    [] OTHER -> "ok"
\* natural logarithms in ten-thousandths
LnTab == [n \in {1, 2, 3, 4, 5, 8, 16, 20, 64, 100, 1000} |->
           CASE n = 1 -> 0 [] n = 2 -> 6931 [] n = 3 -> 10986 [] n = 4 -> 13863 [] n = 5 -> 16094 [] n = 8 -> 20794
             [] n = 16 -> 27726 [] n = 20 -> 29957 [] n = 64 -> 41589 [] n = 100 -> 46052 [] n = 1000 -> 69078]
LnLnTab == [n \in {3, 4, 5, 8, 16, 20, 64, 100, 1000} |->
           CASE n = 3 -> 940 [] n = 4 -> 3266 [] n = 5 -> 4759 [] n = 8 -> 7321 [] n = 16 -> 10198 [] n = 20 -> 10972
             [] n = 64 -> 14252 [] n = 100 -> 15272 [] n = 1000 -> 19326]
\* inv = 10000 / (n * delta)
Delta(r) ==
  LET want == IF r.n = 1 THEN 10000 ELSE IF r.n = 2 THEN LnTab[2] ELSE LnLnTab[r.n]
  IN IF Abs(r.inv - want) <= 2 + want \div 2000 THEN "ok" ELSE "failure probability is not the documented function of n"
Same(r) == IF r.a # r.b THEN "not the same: " \o r.what ELSE "ok"
Verdict(r) == CASE r.status # "ok" -> "call raised an error: " \o r.status
                [] r.kind = "pairwise" -> Pairwise(r)
                [] r.kind = "median" -> Median(r)
                [] r.kind = "threshold" -> Thresh(r)
                [] r.kind = "repeat" -> Rep(r)
                [] r.kind = "pad" -> Pad(r)
                [] r.kind = "delta" -> Delta(r)
                [] r.kind = "same" -> Same(r)
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
===================================================================================
