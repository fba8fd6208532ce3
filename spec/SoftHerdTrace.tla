----------------------------- MODULE SoftHerdTrace -----------------------------
(* Probabilistic kernel herding of two points at temperature 1/ln 2: every pick   *)
(* is x with probability proportional to 2^criterion(x), criterion as in          *)
(* GreedyCore (same candidates).  A record holds the instance and the observed    *)
(* counts over many independent keys: c1[x] for the first position, c2[x][y] for  *)
(* the second given the first.                                                    *)
EXTENDS GreedyCore, Freq, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l

RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)

Rows(r) == [x \in 1..r.n |-> RowSum(r, x)]
\* instances are built so that the criterion is an integer
Crit(r, x, others) ==
  LET T == Len(others) + 1
      W == WeightSum(r)
  IN (T * RowSum(r, x) - W * Total([j \in 1..Len(others) |-> r.K[x][others[j]]])) \div (T * W)
Integral(r, x, others) ==
  LET T == Len(others) + 1
      W == WeightSum(r)
  IN (T * RowSum(r, x) - W * Total([j \in 1..Len(others) |-> r.K[x][others[j]]])) % (T * W) = 0
Cand(r, x, others) == r.w[x] > 0 /\ (r.uniq => \A j \in 1..Len(others) : others[j] # x)
MinCrit(r, others) == CHOOSE c \in {Crit(r, x, others) : x \in 1..r.n} :
                        \A x \in 1..r.n : Crit(r, x, others) >= c
Weights(r, others) ==
  [x \in 1..r.n |-> IF Cand(r, x, others) THEN Pow2(Crit(r, x, others) - MinCrit(r, others)) ELSE 0]

First(r) == IF Len(r.start) = 0 THEN <<>> ELSE <<r.start[2]>>
Verdict(r) ==
  CASE r.status # "ok" -> "call raised an error: " \o r.status
    [] ~(\A x \in 1..r.n : Integral(r, x, First(r)) /\ \A y \in 1..r.n : Integral(r, y, <<x>>)) -> "harness: not integral"
    [] r.range # 0 -> "index out of range"
    [] SumUp(r.c1) # r.N -> "wrong number of draws"
    [] \E x \in 1..r.n : r.c1[x] > 0 /\ r.w[x] = 0 -> "zero-weighted point drawn"
    [] r.uniq /\ ~r.sweeps /\ \E x \in 1..r.n : r.c2[x][x] > 0 -> "member drawn again despite uniqueness"
    [] ~DistOK(r.c1, Weights(r, First(r))) -> "first draw does not follow the softmax of the criterion"
    [] r.sweeps /\ \E x \in 1..r.n : r.c1[x] > 0 /\ ~DistOK(r.c2[x], Weights(r, <<>>)) ->
         "the draws of two sweeps do not follow the softmax independently"
    [] ~r.sweeps /\ \E x \in 1..r.n : r.c1[x] > 0 /\ ~DistOK(r.c2[x], Weights(r, <<x>>)) ->
         "second draw does not follow the softmax of the criterion"
    [] OTHER -> "ok"

Init == l = 1 /\ inst = 0 /\ mem = 0 /\ act = 0 /\ pos = 0
Next ==
  /\ UNCHANGED gvars
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_<<l, inst, mem, act, pos>>
================================================================================
