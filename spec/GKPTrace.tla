-------------------------------- MODULE GKPTrace --------------------------------
(* Validates recorded runs of GreedyKernelPoints against GKPCore.                   *)
EXTENDS GKPCore, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, sw
tvars == <<inst, mem, act, pos, l, sw>>
Rec == Trace[l]
Inst(r) == [n |-> r.n, K |-> r.K, y |-> r.y, lam |-> r.lam, m |-> r.m, uniq |-> r.uniq, start |-> r.start,
            cb |-> r.cb, lb |-> r.lb, eps |-> r.eps]
Goto(k) ==
  /\ l' = k /\ sw' = 1 /\ pos' = 1
  /\ IF k <= Len(Trace)
     THEN /\ inst' = Inst(Trace[k]) /\ mem' = InitMem(inst') /\ act' = InitAct(inst')
     ELSE /\ PrintT(<<"DONE", Len(Trace)>>) /\ UNCHANGED <<inst, mem, act>>
TInit == l = 0 /\ sw = 1 /\ pos = 1 /\ inst = [m |-> 0] /\ mem = <<>> /\ act = <<>>
Fail(c) == PrintT(<<"BAD", l, c>>) /\ Goto(l + 1)
Got == Rec.runs[sw]
Shape ==
  CASE Rec.status # "ok" -> "call raised an error: " \o Rec.status
    [] Len(Rec.runs) = 0 -> "no result"
    [] Len(Got) # inst.m -> "wrong size"
    [] \E i \in 1..Len(Got) : Got[i] \notin 1..inst.n -> "placeholder or out of range index returned"
    [] OTHER -> "ok"
Why(x) ==
  IF ~Eligible(x) THEN "member selected again despite uniqueness"
  ELSE "selected point does not minimise the regression loss"
Step ==
  /\ l >= 1 /\ l <= Len(Trace)
  /\ IF pos = 1 /\ Shape # "ok" THEN Fail(Shape)
     ELSE IF Treating
     THEN IF IsBest(Got[pos]) THEN Pick(Got[pos]) /\ UNCHANGED <<l, sw>> ELSE Fail(Why(Got[pos]))
     ELSE IF sw < Len(Rec.runs)
     THEN /\ sw' = sw + 1 /\ pos' = 1 /\ l' = l
          /\ inst' = [inst EXCEPT !.start = mem]
          /\ mem' = InitMem(inst') /\ act' = InitAct(inst')
     ELSE Goto(l + 1)
TNext == (l = 0 /\ Goto(1)) \/ Step
TSpec == TInit /\ [][TNext]_tvars
InvNoRepeats == l \in 1..Len(Trace) => NoRepeats
================================================================================
