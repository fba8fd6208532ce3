------------------------------- MODULE MetricTrace -------------------------------
(* Recorded metric values.  v is the squared reported value times S (rounded), -1 if   *)
(* not a finite non-negative number; negative squares are reported as zero.            *)
EXTENDS Metric, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
AbsM(x) == IF x < 0 THEN -x ELSE x
\* floor(S * num / den) without forming S * num
Scaled(num, den, S) == S * (num \div den) + (S * (num % den)) \div den
Agrees(v, nd, S, tol) == LET t == Scaled(nd[1], nd[2], S) IN AbsM(v - IF t < 0 THEN 0 ELSE t) <= tol
Value(r) ==
  CASE r.kind = "mmd" -> SqMMD(r.Kxx, r.Kyy, r.Kxy, r.u, r.w)
    [] r.kind = "jmmd" -> SqJMMD([xx |-> r.Kxx, yy |-> r.Kyy, xy |-> r.Kxy],
                                 [xx |-> r.Rxx, yy |-> r.Ryy, xy |-> r.Rxy], r.u, r.w)
    [] r.kind = "ksd" -> SqKSD(r.Kyy, r.w, r.lap, r.logp)
    [] r.kind = "amcmd" -> SqAMCMD(r.Kxx, r.Kyy, r.C1, r.C2, r.Rxx, r.Ryy, r.Rxy, r.lam)
Verdict(r) ==
  CASE r.status # "ok" -> "call raised an error: " \o r.status
    [] r.kind = "axioms" ->
         (CASE r.xy < 0 \/ r.yx < 0 \/ r.xx < 0 -> "not a finite non-negative number"
            [] AbsM(r.xy - r.yx) > r.tol -> "not symmetric"
            [] r.xx > r.tol -> "distance of a dataset to itself is not zero"
            [] AbsM(r.xy - r.dup) > r.tol -> "splitting a point's weight over copies changes the distance"
            [] r.xz > r.lxy + r.yz + r.ttol -> "triangle inequality violated"
            [] OTHER -> "ok")
    [] r.v < 0 -> "not a finite non-negative number"
    [] ~Agrees(r.v, Value(r), r.S, r.tol) -> r.kind \o " differs from its definition (" \o r.via \o ")"
    [] OTHER -> "ok"
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
================================================================================
