-------------------------------- MODULE RPCTrace --------------------------------
(* A record: Gram matrix K, and for many independent keys the pivot sequences drawn  *)
(* (hist: sequences with multiplicities) and the residual diagonal returned (state,  *)
(* in thousandths, for some sequences).                                              *)
EXTENDS RPCCore, Freq, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Prefix(s, k) == SubSeq(s, 1, k)
Prefixes(r, k) == {Prefix(r.hist[i].s, k) : i \in 1..Len(r.hist)}
CountNext(r, p) == [x \in 1..r.n |-> Total([i \in 1..Len(r.hist) |->
                      LET s == r.hist[i].s IN
                      IF Prefix(s, Len(p)) = p /\ s[Len(p) + 1] = x THEN r.hist[i].c ELSE 0])]
Spread(r, p) == Explained(r.K, r.n, Core(r.K, r.n, p))
PrefixOK(r, p) ==
  LET cs == CountNext(r, p) ws == Draw(r.K, r.n, p) IN
    IF Spread(r, p) /\ ~r.exact THEN \A x \in 1..r.n : (r.uniq /\ In(x, p)) => cs[x] = 0
    ELSE DistOK(cs, ws)
SupportOK(r, p) ==
  LET cs == CountNext(r, p) ws == Draw(r.K, r.n, p) IN
    IF Spread(r, p) THEN \A x \in 1..r.n : (r.uniq /\ In(x, p)) => cs[x] = 0
    ELSE \A x \in 1..r.n : ws[x] = 0 => cs[x] = 0
StateOK(r, e) ==
  LET p == Core(r.K, r.n, e.s) v == Vol(r.K, p) IN
    (Len(p) = Len(e.s)) =>
      \A x \in 1..r.n : Abs(e.d[x] - (1000 * Residual(r.K, p, x)) \div v) <= r.stol
Bad(r) == \E i \in 1..Len(r.hist) : Len(r.hist[i].s) # r.m \/ \E j \in 1..Len(r.hist[i].s) : r.hist[i].s[j] \notin 1..r.n
Verdict(r) ==
  CASE r.status # "ok" -> "call raised an error: " \o r.status
    [] Bad(r) -> "index out of range"
    [] r.uniq /\ \E i \in 1..Len(r.hist) : \E a, b \in 1..r.m : a < b /\ r.hist[i].s[a] = r.hist[i].s[b]
         -> "pivot drawn twice"
    [] \E k \in 0..(r.m - 1) : \E p \in Prefixes(r, k) : ~SupportOK(r, p) -> "explained point drawn"
    [] \E k \in 0..(r.m - 1) : \E p \in Prefixes(r, k) : ~PrefixOK(r, p)
         -> "pivots not drawn in proportion to the residual diagonal"
    [] \E i \in 1..Len(r.state) : ~StateOK(r, r.state[i]) -> "returned state is not the residual diagonal"
    [] OTHER -> "ok"
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
================================================================================
