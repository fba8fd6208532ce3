------------------------------- MODULE TimingTrace --------------------------------
(* Timed comparisons recorded from the real code under a clock of whole ticks that   *)
(* only tracing and executing the timed functions advances.                          *)
EXTENDS TimingCore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Abs(x) == IF x < 0 THEN -x ELSE x
\* v hundredths of a normalised unit against num / (den * norm)
NearMean(v, num, den, norm) == Abs(v * den * norm - 100 * num) <= den * norm
NearDev(v, vnn, n, norm) == LET a == v * n * norm IN Abs(a * a - 10000 * vnn) <= (2 * a + n * norm) * n * norm
\* runs[i]: the costs function i actually incurred, in order
Compare(r) ==
  LET nf == Len(r.fs)
      rows(i) == [k \in 1..r.num |-> Row(r.fs[i].runs[k])]
      nm == <<r.norm[1], r.norm[2]>>
      \* a later function of the same name replaces the earlier one in the table of timings
      last(i) == \A j \in (i + 1)..nf : NameOf(r.fs, j) # NameOf(r.fs, i)
  IN CASE r.status # "ok" -> "comparison raised an error: " \o r.status
       [] \E i \in 1..nf : r.fs[i].traces # r.num \/ r.fs[i].execs # 2 * r.num -> "a function was not compiled once and called twice in every run"
       [] ~r.argsok -> "a function did not get its own arguments"
       [] r.names # {NameOf(r.fs, i) : i \in 1..nf} -> "names of the timed functions are wrong"
       [] Len(r.results) # nf -> "there is not one result per function"
       [] \E i \in 1..nf : last(i) /\ r.fs[i].shape # <<r.num, 2>> -> "there is not one row of two times per run"
       [] \E i \in 1..nf : last(i) /\ \E k \in 1..r.num, j \in 1..2 : ~NearMean(r.fs[i].table[k][j], rows(i)[k][j], 1, nm[j]) -> "a recorded time is not the time that passed"
       [] \E i \in 1..nf, j \in 1..2 : ~NearMean(r.results[i].mean[j], MeanN(Column(rows(i), j)), r.num, nm[j]) -> "a mean is not the mean over the runs"
       [] \E i \in 1..nf, j \in 1..2 : ~NearDev(r.results[i].dev[j], VarNN(Column(rows(i), j)), r.num, nm[j]) -> "a deviation is not the standard deviation over the runs"
       [] r.logged # r.log -> "results are logged exactly when asked"
       [] ~r.shown -> "the logged times are not those of the results"
       [] OTHER -> "ok"
Pair(r) ==
  CASE r.status # "ok" -> "timing raised an error: " \o r.status
    [] r.traces # 1 \/ r.execs # 2 -> "the function was not compiled once and called twice"
    [] ~r.argsok -> "the function did not get its own arguments"
    [] r.out # <<100 * First(r.run), 100 * Second(r.run)>> -> "the times are not those of the two runs"
    [] OTHER -> "ok"
\* h: the displayed number in hundredths; m * 10^e the time; at least four digits of room for rounding of binary fractions
Display(r) ==
  IF r.m = 0 THEN (IF r.unit = "s" /\ r.h = 0 THEN "ok" ELSE "zero is not displayed as 0 s") ELSE
  LET u == Unit(r.m, r.e) IN
    IF r.unit # u THEN "wrong unit"
    ELSE IF r.neg # r.shownneg /\ r.h # 0 THEN "sign of the time is lost"
    ELSE LET p == r.e + Shift(u) + 2 IN
      IF u = "mins" THEN (IF Abs(60 * r.h - r.m * Pow10(p)) <= 31 THEN "ok" ELSE "wrong number of minutes")
      ELSE IF p >= 0 THEN (IF r.h = r.m * Pow10(p) THEN "ok" ELSE "displayed time is not the time")
      ELSE (IF 2 * Abs(r.h * Pow10(-p) - r.m) <= Pow10(-p) + 2 THEN "ok" ELSE "displayed time is not the rounded time")
Fix(r) == IF r.kind = "compare" THEN [r EXCEPT !.names = {r.names[i] : i \in 1..Len(r.names)}] ELSE r
Verdict(r) == CASE r.kind = "compare" -> Compare(Fix(r)) [] r.kind = "pair" -> Pair(r) [] r.kind = "display" -> Display(r)
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
=================================================================================
