------------------------------ MODULE ReplayTrace ------------------------------
(* Recorded histories, all of them in one sequence: memo holds, for every signature *)
(* seen so far, the first result.  Every later call with the signature - in any     *)
(* history, process, mode - has to give it again: indices exactly, numbers (five    *)
(* decimals) up to rounding.                                                        *)
EXTENDS ReplayCore, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, memo
Abs(x) == IF x < 0 THEN -x ELSE x
Same(a, b) == /\ a.idx = b.idx /\ Len(a.num) = Len(b.num)
              /\ \A i \in 1..Len(a.num) : Abs(a.num[i] - b.num[i]) <= 20 + Abs(b.num[i]) \div 5000
Verdict(r) ==
  CASE r.status # "ok" -> "call raised an error: " \o r.op \o " " \o r.mode \o ": " \o r.status
    [] r.changed -> "a call modified an object it was given: " \o r.op \o " " \o r.mode
    [] Sig(r) \in DOMAIN memo /\ ~Same(r, memo[Sig(r)]) -> "equal calls gave different results: " \o r.op \o " " \o r.mode
    [] OTHER -> "ok"
Init == l = 1 /\ memo = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET r == Trace[l] v == Verdict(r)
     IN /\ v # "ok" => PrintT(<<"BAD", l, v>>)
        /\ memo' = IF r.status # "ok" \/ Sig(r) \in DOMAIN memo THEN memo ELSE memo @@ (Sig(r) :> [idx |-> r.idx, num |-> r.num])
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_<<l, memo>>
================================================================================
