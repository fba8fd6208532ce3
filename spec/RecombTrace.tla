------------------------------ MODULE RecombTrace -------------------------------
(* Recorded recombinations: phi[i] the test function values of point i (without     *)
(* the constant), w the integer weights, and per returned entry its index and       *)
(* weight times S; pos flags the entries whose weight is not exactly zero.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
W(r) == Sum(r.w, r.n)
Mom(r, j) == Sum([i \in 1..r.n |-> r.w[i] * r.phi[i][j]], r.n)
Got(r, j) == Sum([k \in 1..Len(r.idx) |-> r.wt[k] * r.phi[r.idx[k] + 1][j]], Len(r.idx))
Support(r) == {r.idx[k] : k \in {h \in 1..Len(r.idx) : r.pos[h]}}
\* number of test functions, the constant included
M(r) == r.d + 1
Out(r) == Len(r.idx)
Measure(r, i) == Sum([k \in 1..Out(r) |-> IF r.idx[k] = i - 1 THEN r.wt[k] ELSE 0], Out(r))
Verdict(r) ==
  CASE r.status = "must-refuse" -> IF r.refused THEN "ok" ELSE "an invalid request was accepted: " \o r.what
    [] r.status # "ok" -> "call raised an error: " \o r.status
    [] \E k \in 1..Out(r) : r.idx[k] < 0 \/ r.idx[k] >= r.n -> "index outside the dataset"
    [] r.mode = "implicit-explicit" /\ Out(r) # Min(r.n, M(r)) -> "wrong number of entries"
    [] r.mode = "implicit" /\ Out(r) # r.n -> "wrong number of entries"
    [] r.mode = "explicit" /\ \E k \in 1..Out(r) : ~r.pos[k] -> "explicit result keeps a zero-weighted entry"
    [] r.neg < -100 \/ \E k \in 1..Out(r) : r.wt[k] < -r.tol -> "negative or undefined weight"
    [] Abs(Sum(r.wt, Out(r)) - r.S) > r.tol -> "weights do not sum to one"
    [] \E i \in 1..r.n : r.zero[i] /\ (i - 1) \in Support(r) -> "positive weight on a point of zero weight"
    [] Cardinality(Support(r)) > M(r) -> "more points kept than test functions"
    [] r.unit /\ \E j \in 1..r.d : Abs(Got(r, j) - Mom(r, j)) > (r.tol + r.n) * r.big -> "mean of a test function changed"
    [] ~r.unit /\ \E j \in 1..r.d : Abs(Got(r, j) * W(r) - r.S * Mom(r, j)) > r.tol * r.big * W(r) -> "mean of a test function changed"
    [] r.ref # <<>> /\ \E i \in 1..r.n : Abs(Measure(r, i) - r.ref[i]) > r.tol -> "output modes report different measures"
    [] OTHER -> "ok"
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
=================================================================================
