-------------------------------- MODULE SSMTrace --------------------------------
(* Recorded trainings of score networks.  The optimiser handed to the library first *)
(* puts the parameters at chosen integers and then takes plain unit gradient steps, *)
(* so the trained network reveals the gradient it was given.                        *)
EXTENDS SSMCore, FixMath, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Abs(x) == IF x < 0 THEN -x ELSE x
NearV(u, v, t) == \A i \in 1..Len(u) : Abs(u[i] - v[i]) <= t
NearM(A, B, t) == \A i \in 1..Len(A) : NearV(A[i], B[i], t)
Scale(u, k) == [i \in 1..Len(u) |-> k * u[i]]
ScaleM(A, k) == [i \in 1..Len(A) |-> Scale(A[i], k)]
ShapeOK(r) == Len(r.b1) = Len(r.b) /\ Len(r.W1) = Len(r.W)
\* one step on a batch: parameters moved by minus the batch mean (recorded times batch * projections)
Batches(r) == [1..r.batch -> 1..Len(r.X)]
OneStep(r) ==
  IF \E q \in Batches(r) : /\ BatchB(r.W, r.b, r.X, r.V, r.an, q) = r.b1
                           /\ BatchW(r.W, r.b, r.X, r.V, r.an, q) = r.W1
  THEN "ok"
  ELSE "training step is not the gradient of the sliced objective on any batch of rows"
\* several unit steps on single rows
Chain(r) ==
  IF \E q \in [1..r.steps -> 1..Len(r.X)] : Descend(r.W, r.b, r.X, r.V, r.an, q) = <<r.W1, r.b1>>
  THEN "ok"
  ELSE "trained parameters are not the result of that many gradient steps"
\* noise conditioning, one row, W = 0: the levels enter with their squared scales.
\* num / den = sum of squared levels; recorded gradients are times den.
Noise(r) ==
  LET B == [k \in 1..r.batch |-> 1]
      eb == Scale(BatchB(r.W, r.b, r.X, r.V, r.an, B), r.num)
      ew == ScaleM(BatchW(r.W, r.b, r.X, r.V, r.an, B), r.num)
      D == [i \in 1..Len(r.W) |-> [j \in 1..Len(r.b) |-> r.W1[i][j] - ew[i][j]]]
  IN CASE ~NearV(r.b1, eb, r.tol) -> "noise levels are not weighted by their squared scale"
       [] r.b = ZeroV(Len(r.b)) /\ ~NearM(r.W1, ew, r.tol) -> "noise levels are not weighted by their squared scale"
       \* the perturbation shifts the row only, by no more than six standard deviations
       [] \E i \in 1..Len(r.W), j \in 1..Len(r.b) : Abs(D[i][j]) > r.tol + r.cube * Abs(eb[j]) -> "perturbation is larger than its noise level"
       [] r.perturbed /\ NearM(D, ZeroM(Len(r.b)), r.tol) -> "rows are not perturbed by noise"
       [] \E i \in 1..Len(r.W), j \in 1..Len(r.b), k \in 1..Len(r.b) :
            Abs(D[i][j] * eb[k] - D[i][k] * eb[j]) > r.tol * (Abs(eb[k]) + Abs(eb[j])) -> "noise does not act through the row"
       [] OTHER -> "ok"
\* variance of the perturbation: mean square within the recorded bounds
Spread(r) == IF \E i \in 1..Len(r.ms) : r.ms[i] < r.lo \/ r.ms[i] > r.hi THEN "perturbation does not have the requested noise level" ELSE "ok"
\* an optimiser adding one to every bias per step
Count(r) == IF r.moved # [j \in 1..Len(r.moved) |-> r.epochs] THEN "number of training steps differs from the number of epochs" ELSE "ok"
\* rows with unit projections, b = 1 and W = 0: GradB counts the uses of each row
X1(r, j) == r.X[j]
Rows(r) ==
  LET n == Len(r.X)
  IN CASE SumS(r.b1, n) # r.batch -> "batch does not consist of the requested number of rows"
       [] \E i \in 1..n : r.b1[i] < r.lo \/ r.b1[i] > r.hi -> "batches are not drawn uniformly from the rows"
       \* column j of the weight gradient: (e_j + X[j]) times the uses of row j
       [] \E i \in 1..n, j \in 1..n : Abs(r.W1[i][j] - r.b1[j] * (X1(r, j)[i] + (IF i = j THEN 1 ELSE 0))) > 2 -> "rows are not paired with their own projections"
       [] OTHER -> "ok"
\* ln(1 + e^z) in ten-thousandths, z = -8..8
SoftTab == <<3, 9, 25, 67, 181, 486, 1269, 3133, 6931, 13133, 21269, 30486, 40181, 50067, 60025, 70009, 80003>>
SigTab == <<3, 9, 25, 67, 180, 474, 1192, 2689, 5000, 7311, 8808, 9526, 9820, 9933, 9975, 9991, 9997>>
Soft(z) == SoftTab[z + 9]
Sig(z) == SigTab[z + 9]
\* one hidden layer: s = softplus(x W1 + b1) W2 + b2
Hidden(r) ==
  LET h == Len(r.b)
      d == Len(r.b2)
      z == Score(r.W, r.b, r.x)
      a == [k \in 1..h |-> Soft(z[k])]
      g == [k \in 1..h |-> Sig(z[k])]
      s == [j \in 1..d |-> DotS(a, Col(r.W2, j)) + S * r.b2[j]]
      u == RowTimes(r.v, r.W)
      gb == [j \in 1..d |-> IF r.an THEN s[j] ELSE DotS(r.v, s) * r.v[j]]
      c == [k \in 1..h |-> DotS(r.W2[k], r.v)]
      e == [k \in 1..h |-> DotS(r.W2[k], gb)]
      gz == [k \in 1..h |-> u[k] * c[k] * Mul(g[k], S - g[k]) + Mul(e[k], g[k])]
      gw == [k \in 1..h |-> [j \in 1..d |-> u[k] * g[k] * r.v[j] + Mul(a[k], gb[j])]]
      hw == [i \in 1..d |-> [k \in 1..h |-> r.x[i] * gz[k] + r.v[i] * g[k] * c[k]]]
  IN CASE ~NearV(r.s, s, r.tol) -> "network does not evaluate its layers"
       [] ~NearV(r.gb, gb, 6 * r.tol) \/ ~NearM(r.gw, gw, 30 * r.tol) -> "training step is not the gradient of the sliced objective (output layer)"
       [] ~NearV(r.hb, gz, 30 * r.tol) \/ ~NearM(r.hw, hw, 30 * r.tol) -> "training step is not the gradient of the sliced objective (hidden layer)"
       [] OTHER -> "ok"
Same(r) == IF r.a # r.c THEN "not the same: " \o r.what ELSE "ok"
Valid(r) == r.isint /\ (IF r.rule = "nonneg" THEN r.h >= 0 ELSE r.h >= 1)
Guard(r) == CASE Valid(r) /\ ~r.accepted -> "valid setting refused: " \o r.what
              [] ~Valid(r) /\ r.accepted -> "invalid setting accepted: " \o r.what
              [] OTHER -> "ok"
Verdict(r) == CASE r.status # "ok" -> "call raised an error: " \o r.status
                [] r.kind \in {"one", "chain"} /\ ~ShapeOK(r) -> "network has the wrong shape"
                [] r.kind = "one" -> OneStep(r)
                [] r.kind = "chain" -> Chain(r)
                [] r.kind = "noise" -> Noise(r)
                [] r.kind = "spread" -> Spread(r)
                [] r.kind = "count" -> Count(r)
                [] r.kind = "rows" -> Rows(r)
                [] r.kind = "hidden" -> Hidden(r)
                [] r.kind = "same" -> Same(r)
                [] r.kind = "guard" -> Guard(r)
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
================================================================================
