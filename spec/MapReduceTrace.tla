------------------------------ MODULE MapReduceTrace ------------------------------
(* Recorded map-reduce runs.  A record holds, for each level, the partitions handed    *)
(* to the base solver (row identities, fillers, per-row payload) and what the base     *)
(* solver kept; and the final answer.  State: the survivors, one action per level.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, k, alive
vars == <<l, k, alive>>
Rec == Trace[l]
Ran(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumLen(_, _)
SumLen(P, i) == IF i = 0 THEN 0 ELSE Len(P[i].ids) + SumLen(P, i - 1)
Level == Rec.levels[k]
All(P) == UNION {Ran(P[i].ids) : i \in 1..Len(P)}
Kept(P) == UNION {Ran(P[i].kept) : i \in 1..Len(P)}
LevelVerdict(P, last) ==
  CASE \E i \in 1..Len(P) : P[i].badfill > 0 -> "filler row with weight"
    [] \E i \in 1..Len(P) : Ran(P[i].ids) \ (1..Rec.n) # {} -> "partition row that is no row of the data"
    [] \E i \in 1..Len(P) : P[i].mixed > 0 -> "features, responses or weight of a row got mixed up"
    [] SumLen(P, Len(P)) # Cardinality(All(P)) -> "row in two partitions"
    [] All(P) # alive -> "partitions do not cover the data"
    [] \E i \in 1..Len(P) : Len(P[i].ids) < Rec.m -> "partition smaller than the coreset"
    [] \E i \in 1..Len(P) : Len(P[i].ids) > Rec.leaf -> "partition larger than the leaf size"
    [] \E i \in 1..Len(P) : P[i].fill > 1 -> "more than one filler in a partition"
    [] \E i \in 1..Len(P) : ~(Ran(P[i].kept) \subseteq Ran(P[i].ids)) -> "kept a row outside its partition"
    [] last /\ (Len(P) # 1 \/ P[1].fill # 0) -> "last level is not one plain reduction"
    [] ~last /\ Cardinality(Kept(P)) >= Cardinality(alive) -> "level makes no progress"
    [] OTHER -> "ok"
Final ==
  CASE Len(Rec.idx) # Rec.m -> "wrong size"
    [] Rec.idx # Rec.levels[Len(Rec.levels)][1].kept -> "result does not map back to the rows kept last"
    [] Rec.result # 0 -> "result points or carried dataset differ from the data"
    [] OTHER -> "ok"
Init == l = 1 /\ k = 1 /\ alive = IF Len(Trace) > 0 THEN 1..Trace[1].n ELSE {}
Move(v) ==
  /\ v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
  /\ l' = l + 1 /\ k' = 1
  /\ alive' = IF l < Len(Trace) THEN 1..Trace[l + 1].n ELSE {}
Next ==
  /\ l <= Len(Trace)
  /\ IF Rec.status # "ok" THEN Move(Rec.status)
     ELSE IF k > Len(Rec.levels) THEN Move(Final)
     ELSE LET v == LevelVerdict(Level, k = Len(Rec.levels)) IN
          IF v # "ok" THEN Move(v) ELSE k' = k + 1 /\ l' = l /\ alive' = Kept(Level)
Spec == Init /\ [][Next]_vars
================================================================================
