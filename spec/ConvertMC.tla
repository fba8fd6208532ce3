------------------------------- MODULE ConvertMC -------------------------------
(* Histories of Stein conversions: the base kernel never changes, the kernel stays  *)
(* a Stein kernel, and the score is that of the last supplied matcher - or, if none *)
(* was ever supplied, the original score or the default of the first conversion.    *)
EXTENDS ScoreCore, TLC, Json
CONSTANTS Depth, Emit
VARIABLES start, cur, hist
vars == <<start, cur, hist>>
Bases == {"se", "pc", "lin", "sum"}
Matchers == {"none", "kde1", "kde2", "affine"}
Init == /\ \E b \in Bases, s \in BOOLEAN : start = [base |-> b, stein |-> s, src |-> IF s THEN <<"given", 0>> ELSE <<"no", 0>>]
        /\ cur = start /\ hist = <<>>
Do(m, d) == Len(hist) < Depth /\ cur' = Convert(cur, m, d) /\ hist' = Append(hist, [m |-> m, data |-> d]) /\ UNCHANGED start
Finish == /\ Emit /\ Len(hist) = Depth /\ hist' = Append(hist, [m |-> "end", data |-> 0])
          /\ PrintT(<<"HIST", ToJson([base |-> start.base, stein |-> start.stein, ops |-> hist])>>) /\ UNCHANGED <<start, cur>>
Next == (\E m \in Matchers, d \in 1..2 : Do(m, d)) \/ Finish
Spec == Init /\ [][Next]_vars
BaseKept == cur.base = start.base
StaysStein == hist # <<>> => cur.stein
Supplied == {i \in 1..Len(hist) : hist[i].m # "none"}
LastWins == Supplied # {} => LET i == CHOOSE i \in Supplied : \A j \in Supplied : j <= i IN cur.src = <<hist[i].m, hist[i].data>>
ElseFirst == (Supplied = {} /\ hist # <<>>) => cur.src = IF start.stein THEN start.src ELSE <<"own", hist[1].data>>
================================================================================
