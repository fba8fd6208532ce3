------------------------------ MODULE WeightsTrace ------------------------------
(* Recorded weight optimisations.  K (times Q) is the coreset Gram matrix, z (times  *)
(* Q n) the sums of the kernel against the n data points, eps (times Q) the ridge,   *)
(* w and old the weights (times S) after and before.                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Row(r, w, c) == Sum([j \in 1..r.m |-> (r.K[c][j] + (IF c = j THEN r.eps ELSE 0)) * w[j]], r.m)
\* (K + eps) w - mean kernel, times Q S
G(r, w, c) == Row(r, w, c) - (r.S * r.z[c]) \div r.n
MinG(r, w) == CHOOSE v \in {G(r, w, c) : c \in 1..r.m} : \A c \in 1..r.m : v <= G(r, w, c)
\* divided by S to stay within 32 bits
Gap(r, w) == Sum([c \in 1..r.m |-> ((w[c] \div 10) * ((G(r, w, c) - MinG(r, w)) \div 10)) \div (r.S \div 100)], r.m)
\* F(u) - F(w) = (u - w)'(G(u) + G(w)), times Q S
Diff(r, u, w) == Sum([c \in 1..r.m |-> (((u[c] - w[c]) \div 10) * ((G(r, u, c) + G(r, w, c)) \div 10)) \div (r.S \div 100)], r.m)
Verdict(r) ==
  CASE r.status # "ok" -> "call raised an error: " \o r.status
    [] Len(r.w) # r.m -> "wrong number of weights"
    [] ~r.kept -> "re-solving the weights changed the points of the coreset"
    [] r.kind = "sbq" /\ \E c \in 1..r.m : Abs(G(r, r.w, c)) > r.tol -> "quadrature weights do not solve the linear system"
    [] r.kind = "mmd" /\ \E c \in 1..r.m : r.w[c] < 0 -> "simplex weight negative"
    [] r.kind = "mmd" /\ Abs(Sum(r.w, r.m) - r.S) > r.m + 2 -> "simplex weights do not sum to one"
    [] r.kind = "mmd" /\ Gap(r, r.w) > r.tol -> "simplex weights are not optimal"
    [] r.kind = "mmd" /\ r.old # <<>> /\ Diff(r, r.old, r.w) < -r.tol -> "re-solving the weights increased the discrepancy"
    [] OTHER -> "ok"
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
=================================================================================
