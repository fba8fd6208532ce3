------------------------------ MODULE SubsetTrace ------------------------------
(* Checks recorded solver calls against Subset: each record is one Ask followed   *)
(* by the observed Refuse or Answer.  Data values are logged as the 32 bit        *)
(* patterns of the floats, so equality is exact.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l

ok(r) == r.status = "ok"
Feasible(r) == r.m >= 1 /\ r.m <= r.n /\ r.feasible
Usable(r) == {i \in 1..r.n : r.W[i] > 0}
Repeats(s) == \E i, j \in 1..Len(s) : i < j /\ s[i] = s[j]
\* what the solver refused must be infeasible, what it answered must be feasible
\* large datasets: only the rows at the reported indices are logged (rows, resp)
Large(r) ==
  CASE r.status # "ok" -> "feasible request refused: " \o r.status
    [] Len(r.idx) # r.m -> "wrong size"
    [] \E i \in 1..r.m : r.idx[i] \notin 1..r.n -> "index out of range"
    [] r.P # r.rows -> "point is not the row at its index"
    [] r.sup /\ r.Q # r.resp -> "response is not that of the row at its index"
    [] ~r.carried -> "dataset carried by the result differs (features)"
    [] r.uniq /\ Repeats(r.idx) -> "repeated index despite uniqueness"
    [] \E i \in 1..r.m : r.usable[i] = 0 -> "zero-weighted row selected"
    [] OTHER -> "ok"
Verdict(r) ==
  CASE "rows" \in DOMAIN r -> Large(r)
    [] ~Feasible(r) -> IF ok(r) THEN "infeasible request answered" ELSE "ok"
    [] ~ok(r) -> "feasible request refused: " \o r.status
    [] Len(r.idx) # r.m -> "wrong size"
    [] \E i \in 1..r.m : r.idx[i] \notin 1..r.n -> "index out of range"
    [] Len(r.P) # r.m \/ \E i \in 1..r.m : r.P[i] # r.X[r.idx[i]] -> "point is not the row at its index"
    [] Len(r.Q) # (IF r.sup THEN r.m ELSE 0) -> "responses missing"
    [] r.sup /\ \E i \in 1..r.m : r.Q[i] # r.Y[r.idx[i]] -> "response is not that of the row at its index"
    [] r.cX # r.X -> "dataset carried by the result differs (features)"
    [] r.cY # r.Y -> "dataset carried by the result differs (responses)"
    [] r.cW # r.Wbits -> "dataset carried by the result differs (weights)"
    [] r.after # r.before -> "caller's dataset modified"
    [] r.uniq /\ Repeats(r.idx) -> "repeated index despite uniqueness"
    [] r.skipzero /\ \E i \in 1..r.m : r.idx[i] \notin Usable(r) -> "zero-weighted row selected"
    [] OTHER -> "ok"

Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
================================================================================
