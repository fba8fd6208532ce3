----------------------------- MODULE BlockMeanTrace -----------------------------
(* Recorded kernel means: values (times S) must be the weighted mean of K.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
\* value v (times S) is num / den up to tol; an all-zero weighting gives zero
Is(v, num, den, S, tol) == IF den = 0 THEN v = 0 ELSE Abs((S * num) - (v * den)) <= tol * den
RowSum(r, a) == Sum([b \in 1..r.m |-> r.K[a][b] * r.wy[b]], r.m)
ColSum(r, b) == Sum([a \in 1..r.n |-> r.K[a][b] * r.wx[a]], r.n)
All(r) == Sum([a \in 1..r.n |-> r.wx[a] * RowSum(r, a)], r.n)
\* rows marked light weigh w / 2^e (their kernel values are scaled by 2^e): they count in the sums, not in the total weight
WX(r) == Sum([a \in 1..r.n |-> (1 - r.lx[a]) * r.wx[a]], r.n)
WY(r) == Sum([b \in 1..r.m |-> (1 - r.ly[b]) * r.wy[b]], r.m)
Verdict(r) ==
  CASE r.status # "ok" -> "call raised an error: " \o r.status
    [] r.axis = "all" /\ (Len(r.v) # 1 \/ ~Is(r.v[1], All(r), WX(r) * WY(r), r.S, r.tol)) -> "mean differs from the weighted average"
    [] r.axis = "1" /\ Len(r.v) # r.n -> "wrong number of column means"
    [] r.axis = "0" /\ Len(r.v) # r.m -> "wrong number of row means"
    [] r.axis = "1" /\ \E a \in 1..r.n : ~Is(r.v[a], RowSum(r, a), WY(r), r.S, r.tol) -> "column mean differs from the weighted average"
    [] r.axis = "0" /\ \E b \in 1..r.m : ~Is(r.v[b], ColSum(r, b), WX(r), r.S, r.tol) -> "row mean differs from the weighted average"
    [] OTHER -> "ok"
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
================================================================================
