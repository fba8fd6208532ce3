--------------------------------- MODULE TimingMC ---------------------------------
(* The measuring procedure as a machine with a clock: for each function and each     *)
(* run a fresh compiled copy is made, called twice, and the clock is read around     *)
(* both calls.  Whatever the costs, the derived table is the one of TimingCore.      *)
EXTENDS TimingCore
CONSTANTS NF, Runs, MaxCost
VARIABLES f, run, pc, clock, t0, first, traced, costs, table, execs, traces
vars == <<f, run, pc, clock, t0, first, traced, costs, table, execs, traces>>
NoCost == [c |-> 0, a |-> 0, b |-> 0]
Init == /\ f = 1 /\ run = 1 /\ pc = "read" /\ clock = 0 /\ t0 = 0 /\ first = 0 /\ traced = FALSE
        /\ costs = [i \in 1..NF |-> <<>>] /\ table = [i \in 1..NF |-> <<>>]
        /\ execs = [i \in 1..NF |-> 0] /\ traces = [i \in 1..NF |-> 0]
\* anything may pass between a call's end and the next reading; only the interval counts
Read == /\ pc = "read" /\ \E idle \in 0..1 : clock' = clock + idle /\ t0' = clock + idle
        /\ pc' = "call" /\ UNCHANGED <<f, run, first, traced, costs, table, execs, traces>>
CallFirst == /\ pc = "call" /\ ~traced
             /\ \E c \in 0..MaxCost, a \in 0..MaxCost :
                  /\ clock' = clock + c + a
                  /\ costs' = [costs EXCEPT ![f] = Append(@, [c |-> c, a |-> a, b |-> 0])]
             /\ traced' = TRUE /\ traces' = [traces EXCEPT ![f] = @ + 1] /\ execs' = [execs EXCEPT ![f] = @ + 1]
             /\ pc' = "stop" /\ UNCHANGED <<f, run, t0, first, table>>
CallSecond == /\ pc = "call" /\ traced
              /\ \E b \in 0..MaxCost : /\ clock' = clock + b
                                       /\ costs' = [costs EXCEPT ![f] = [@ EXCEPT ![run].b = b]]
              /\ execs' = [execs EXCEPT ![f] = @ + 1]
              /\ pc' = "done" /\ UNCHANGED <<f, run, t0, first, traced, table, traces>>
Stop == /\ pc = "stop" /\ first' = clock - t0 /\ pc' = "read" /\ UNCHANGED <<f, run, clock, t0, traced, costs, table, execs, traces>>
Done == /\ pc = "done"
        /\ table' = [table EXCEPT ![f] = Append(@, <<first - (clock - t0), clock - t0>>)]
        /\ traced' = FALSE /\ first' = 0
        /\ IF run < Runs THEN run' = run + 1 /\ f' = f /\ pc' = "read"
           ELSE IF f < NF THEN run' = 1 /\ f' = f + 1 /\ pc' = "read"
           ELSE run' = run /\ f' = f /\ pc' = "end"
        /\ clock' = 0 /\ t0' = 0 /\ UNCHANGED <<costs, execs, traces>>
Next == Read \/ CallFirst \/ CallSecond \/ Stop \/ Done
Spec == Init /\ [][Next]_vars
\* the table is a function of the costs alone
TableIsCosts == \A i \in 1..NF : \A k \in 1..Len(table[i]) : table[i][k] = Row(costs[i][k])
FixedCalls == pc = "end" => \A i \in 1..NF : Len(table[i]) = Runs /\ execs[i] = 2 * Runs /\ traces[i] = Runs
VarianceSane == \A i \in 1..NF, j \in 1..2 : table[i] # <<>> => VarNN(Column(table[i], j)) >= 0
\* the display of a time: units change exactly at the powers of ten, and the displayed number is never below one of its unit or 1000 and over
UnitSane == \A m \in {1, 9, 10, 99, 100, 999, 1000, 4531}, e \in -13..2 :
   LET u == Unit(m, e) o == Order(m, e) IN
     /\ u \in {"ms", "us", "ns"} => LET s == o + Shift(u) IN 0 <= s /\ s < 3
     /\ u = "s" => o \in {0, 1}
     /\ u = "mins" => o >= 2
     /\ u = "ps" => o < -9
=================================================================================
