------------------------------- MODULE SameTrace -------------------------------
(* Records of two observations the specification says must coincide (the same      *)
(* request under two presentations: padded / unpadded, scaled / unscaled, ...).    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Verdict(r) ==
  CASE r.status # "ok" -> "call raised an error: " \o r.status
    [] r.a # r.b -> "observations differ: " \o r.what
    [] OTHER -> "ok"
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
================================================================================
