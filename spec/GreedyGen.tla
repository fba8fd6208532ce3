------------------------------- MODULE GreedyGen -------------------------------
(* Enumerates every small instance of the greedy specification (the same space    *)
(* GreedyMC explores) and writes it as NDJSON for exhaustive replay into the code. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS N, KVals, DVals, WVals, Ms, StartLens
VARIABLE done
Pairs == {p \in (1..N) \X (1..N) : p[1] < p[2]}
Sym(o, d) == [x \in 1..N |-> [y \in 1..N |->
                IF x = y THEN d[x] ELSE IF x < y THEN o[<<x, y>>] ELSE o[<<y, x>>]]]
Positive(wt) == {x \in 1..N : wt[x] > 0}
Starts(wt, k) == {s \in [1..k -> Positive(wt)] : \A i, j \in 1..k : i # j => s[i] # s[j]}
Instances ==
  UNION {UNION {UNION {
    {[K |-> Sym(o, d), w |-> wt, m |-> m, start |-> s] : s \in Starts(wt, k)}
      : wt \in {w \in [1..N -> WVals] : Cardinality(Positive(w)) >= (IF m > k THEN m ELSE k)}}
      : <<m, k>> \in Ms \X StartLens}
      : <<o, d>> \in [Pairs -> KVals] \X [1..N -> DVals]}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ ndJsonSerialize(IOEnv.OUT_FILE, SetToSeq(Instances))
Spec == Init /\ [][Next]_done
================================================================================
