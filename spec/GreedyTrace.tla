------------------------------ MODULE GreedyTrace ------------------------------
(* Validates recorded runs of kernel herding / Stein thinning against GreedyCore. *)
(* Each record is one call (or a chain of refinements of the same coreset): the    *)
(* instance, and `runs`, the index sequences the real code returned.               *)
EXTENDS GreedyCore, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, sw
tvars == <<inst, mem, act, pos, l, sw>>

Has(r, f) == f \in DOMAIN r
Rec == Trace[l]
AllTrue(s) == [i \in 1..Len(s) |-> TRUE]
Inst(r) ==
  [n |-> r.n, K |-> r.K, w |-> r.w, m |-> r.m, uniq |-> r.uniq, start |-> r.start,
   act0 |-> IF Has(r, "act0") THEN r.act0 ELSE AllTrue(r.start),
   kind |-> r.kind, eps |-> r.eps,
   R |-> IF r.kind = "herd" THEN [x \in 1..r.n |-> RowSum(r, x)] ELSE <<>>,
   W |-> WeightSum(r),
   a |-> IF r.kind = "stein" THEN [x \in 1..r.n |-> r.K[x][x] + r.lap[x]] ELSE <<>>,
   b |-> IF r.kind = "stein" THEN r.reg ELSE <<>>]

Goto(k) ==
  /\ l' = k
  /\ sw' = 1
  /\ pos' = 1
  /\ IF k <= Len(Trace)
     THEN /\ inst' = Inst(Trace[k]) /\ mem' = InitMem(inst') /\ act' = InitAct(inst')
     ELSE /\ PrintT(<<"DONE", Len(Trace)>>) /\ UNCHANGED <<inst, mem, act>>
TInit == l = 0 /\ sw = 1 /\ pos = 1 /\ inst = [m |-> 0] /\ mem = <<>> /\ act = <<>>

Fail(c) == PrintT(<<"BAD", l, c>>) /\ Goto(l + 1)
Got == Rec.runs[sw]
Shape ==
  CASE Rec.status # "ok" -> "call raised an error: " \o Rec.status
    [] Len(Rec.runs) = 0 -> "no result"
    [] Len(Got) # inst.m -> "wrong size"
    [] \E i \in 1..Len(Got) : Got[i] \notin 1..inst.n -> "index out of range"
    [] OTHER -> "ok"
Why(x) ==
  IF inst.w[x] <= 0 THEN "zero-weighted point selected"
  ELSE IF inst.uniq /\ x \in OtherPoints THEN "member selected again despite uniqueness"
  ELSE "selected point is not optimal for the criterion"
Worse == Has(Rec, "mono") /\ Rec.mono /\ Len(inst.start) = inst.m
         /\ Mmd2(Result) > Mmd2(inst.start) + Rec.meps

Step ==
  /\ l >= 1 /\ l <= Len(Trace)
  /\ IF pos = 1 /\ Shape # "ok" THEN Fail(Shape)
     ELSE IF Treating
     THEN IF IsBest(Got[pos]) THEN Pick(Got[pos]) /\ UNCHANGED <<l, sw>> ELSE Fail(Why(Got[pos]))
     ELSE IF Worse THEN Fail("refinement increased the discrepancy")
     ELSE IF sw < Len(Rec.runs)
     THEN /\ sw' = sw + 1 /\ pos' = 1 /\ l' = l
          /\ inst' = [inst EXCEPT !.start = Result, !.act0 = AllTrue(Result)]
          /\ mem' = InitMem(inst') /\ act' = InitAct(inst')
     ELSE Goto(l + 1)
TNext == (l = 0 /\ Goto(1)) \/ Step
TSpec == TInit /\ [][TNext]_tvars
\* the specification's own invariants hold along every accepted trace
InvNoRepeats == l \in 1..Len(Trace) => NoRepeats
InvOnlyWeighted == l \in 1..Len(Trace) => OnlyWeighted
================================================================================
