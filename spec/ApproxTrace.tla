------------------------------ MODULE ApproxTrace ------------------------------
(* Recorded approximate row means (v, four decimals) on integer kernel tables.  The *)
(* feature and training points drawn inside the library are not observed: some      *)
(* admissible choice has to explain the result.                                     *)
EXTENDS ApproxCore, FixMath, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Sets(n, k) == {T \in SUBSET (1..n) : Cardinality(T) = k}
Explains(r, F, T, own) ==
  LET ord == Order(T)
      b == IF own THEN OwnSums(r.K, ord) ELSE AllSums(r.K, ord)
      d == IF own THEN Cardinality(T) ELSE r.n
      R == FitAll(r.K, F, ord, b)
  IN R.den # 0 /\ \A i \in 1..r.n : AbsF(Round(Quot(R.num[i], R.den), d) - r.v[i]) <= r.tol
Fit(r) ==
  CASE r.method = "mc" -> \E A \in Sets(r.n, r.k), T \in Sets(r.n, r.t) : Explains(r, Order(A), T, FALSE)
    [] r.method = "annchor" -> \E F \in Anchors(r.K, r.k), T \in Sets(r.n, r.t) : Explains(r, F, T, FALSE)
    [] r.method = "nystrom" -> \E A \in Sets(r.n, r.k), T \in Sets(r.n, r.t) : Explains(r, Order(A), T, TRUE)
Exact(r) == \A i \in 1..r.n : AbsF(Round(S * SumA([j \in 1..r.n |-> r.K[j][i]], r.n), r.n) - r.v[i]) <= r.tol
\* more points than there are, or none, must be refused
Feasible(r) == /\ r.k > 0 /\ r.t > 0 /\ r.t <= r.n /\ (r.method # "annchor" => r.k <= r.n)
Verdict(r) ==
  CASE r.kind = "guard" -> (IF Feasible(r) = r.accepted THEN "ok" ELSE IF r.accepted THEN "infeasible request accepted" ELSE "feasible request refused")
    [] r.status # "ok" -> "call raised an error: " \o r.status
    [] r.kind = "same" -> (IF r.a = r.b THEN "ok" ELSE "approximate kernel differs from its base kernel: " \o r.what)
    [] Len(r.v) # r.n -> "wrong number of row means"
    [] r.nan -> "row mean is not finite"
    [] r.k = r.n /\ r.t = r.n /\ ~Exact(r) -> "row mean is not exact although the features span it on all rows"
    [] ~Fit(r) -> "row mean is not the least-squares fit of the target on any admissible sample"
    [] OTHER -> "ok"
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
================================================================================
