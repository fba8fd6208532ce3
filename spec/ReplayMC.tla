------------------------------- MODULE ReplayMC -------------------------------
(* Histories of calls on shared objects.  An implementation may remember earlier    *)
(* results; By says what it files them under.  Filing under the whole signature is  *)
(* invisible; filing under less (the shape of the data) is seen by every history    *)
(* that calls one operation on two datasets of one shape, so these histories can    *)
(* tell a sound cache from an unsound one.                                          *)
EXTENDS ReplayCore, TLC, Json
CONSTANTS Depth, By, Emit, Few
VARIABLES group, hist, filed
vars == <<group, hist, filed>>
Shape(d) == IF d = "C" THEN 12 ELSE 8
Drawer(c) == CASE By = "none" -> <<"new", Len(hist)>>
               [] By = "sig" -> Sig(c)
               [] By = "shape" -> <<c.op, Shape(c.data), IF c.op \in RandomOps THEN c.key ELSE 0>>
GroupSet == IF Few THEN {1} ELSE 1..Len(Groups)
Init == group \in GroupSet /\ hist = <<>> /\ filed = <<>>
OpsOf(g) == IF Few THEN {"herd", "prob"} ELSE {Groups[g][i] : i \in 1..Len(Groups[g])}
HasState(op, d, k) == \E i \in 1..Len(hist) : Base(hist[i].op) = Base(op) /\ hist[i].data = d /\ hist[i].key = k
Call(c) ==
  /\ c.mode = "state" => Base(c.op) \in Cached /\ HasState(c.op, c.data, c.key)
  /\ LET dr == Drawer(c)
         res == IF dr \in DOMAIN filed THEN filed[dr] ELSE Sig(c)
     IN /\ hist' = Append(hist, [op |-> c.op, data |-> c.data, key |-> c.key, mode |-> c.mode, res |-> res])
        /\ filed' = IF dr \in DOMAIN filed \/ By = "none" THEN filed ELSE filed @@ (dr :> res)
  /\ UNCHANGED group
Done == Len(hist) >= Depth
Finish == /\ Emit /\ Len(hist) = Depth /\ UNCHANGED <<group, filed>>
          /\ hist' = Append(hist, [op |-> "end", data |-> "A", key |-> 1, mode |-> "eager", res |-> <<>>])
          /\ PrintT(<<"HIST", ToJson([group |-> group, calls |-> [i \in 1..Len(hist) |->
                 [op |-> hist[i].op, data |-> hist[i].data, key |-> hist[i].key, mode |-> hist[i].mode]]])>>)
Next == \/ /\ ~Done
           /\ \E o \in OpsOf(group), d \in Datas, k \in Keys, m \in {"eager", "jit", "state"} : Call([op |-> o, data |-> d, key |-> k, mode |-> m])
        \/ Finish
Spec == Init /\ [][Next]_vars
Wrong == \E i \in 1..Len(hist) : hist[i].res # Sig(hist[i])
Clash == \E i, j \in 1..Len(hist) : /\ i < j /\ hist[i].op = hist[j].op /\ hist[i].data # hist[j].data
                                    /\ Shape(hist[i].data) = Shape(hist[j].data) /\ (hist[i].op \in RandomOps => hist[i].key = hist[j].key)
Pure == By # "shape" => ~Wrong
Discriminates == By = "shape" => (Wrong <=> Clash)
Equal == By # "shape" => \A i, j \in 1..Len(hist) : Sig(hist[i]) = Sig(hist[j]) => hist[i].res = hist[j].res
================================================================================
