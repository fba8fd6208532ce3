------------------------------ MODULE ObjectsTrace ------------------------------
(* Replayed histories: after every operation the object was observed; the            *)
(* observation must be the value the specification computes.                         *)
EXTENDS ObjectsCore, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
S == 5040000
Abs(x) == IF x < 0 THEN -x ELSE x
\* an observed dataset: X, Y (<<>> if none), W (times S), n, the array conversion A
Near(v, num, den) == Abs(v - (S \div den) * num) <= 1000 + Abs(num)
Same(d, b) ==
  CASE b.X # d.x -> "features"
    [] b.Y # d.y -> "responses"
    [] Len(b.W) # Len(d.w) -> "number of weights"
    [] \E i \in 1..Len(d.w) : ~Near(b.W[i], d.w[i], d.wd) -> "weights"
    [] b.n # Len(d.x) -> "length"
    [] b.A # [i \in 1..Len(d.x) |-> IF d.y = <<>> THEN d.x[i] ELSE d.x[i] \o d.y[i]] -> "array conversion"
    [] OTHER -> "ok"
Check(s, b) ==
  IF b.kind # s.kind THEN "object is a " \o b.kind \o ", expected " \o s.kind ELSE
  LET c == Same(s.rows, b.rows) IN
    IF c # "ok" THEN "rows of the object are wrong: " \o c
    ELSE IF s.kind = "data" THEN "ok"
    ELSE LET p == Same(s.pre, b.pre) IN
      IF p # "ok" THEN "the original dataset of the coreset is wrong: " \o p
      ELSE IF s.kind = "subset" /\ b.idx # s.idx THEN "indices of the coresubset are wrong" ELSE "ok"
RECURSIVE Walk(_, _, _)
Walk(r, k, s) ==
  IF k > Len(r.ops) THEN "ok" ELSE
  LET o == r.ops[k] b == r.obs[k] acc == Accepts(s, o) IN
    IF ~acc THEN (IF b.kind # "rejected" THEN "an inconsistent request was accepted: " \o o.op ELSE Walk(r, k + 1, s))
    ELSE IF b.kind = "rejected" THEN "a valid request was rejected: " \o o.op \o " " \o b.err
    ELSE LET t == Apply(s, o) c == Check(t, b) IN
      IF c # "ok" THEN c \o " (after " \o o.op \o ")"
      ELSE IF r.again[k] # b THEN "an earlier object changed later: " \o o.op
      ELSE Walk(r, k + 1, t)
Verdict(r) == Walk(r, 1, Nothing)
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
=================================================================================
