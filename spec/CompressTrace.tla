------------------------------ MODULE CompressTrace ------------------------------
(* Recorded Compress++ runs: the thinning calls it makes, in dependency order.         *)
(*   n, g, size   data size, oversampling factor, requested size                        *)
(*   calls        [inp, out] : distinct rows given to / kept by a thinning call         *)
(* State: the set of current parts.  Parts start as the 4^g sized base parts (only      *)
(* their union is observable); each halving call consumes four parts of the current     *)
(* level and yields half of their rows; a last call thins the rest to the final answer. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, parts, lev, todo
vars == <<l, parts, lev, todo>>
Rec == Trace[l]
Ran(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE Depth(_)
Depth(n) == IF n < 4 THEN 0 ELSE 1 + Depth(n \div 4)      \* floor(log4 n)
Feasible(r) == r.size <= r.n /\ 0 <= r.g /\ r.g <= Depth(r.n) /\ r.size <= Pow(2, r.g + Depth(r.n))
L(r) == Depth(r.n)
InSize(r, k) == 2 * Pow(2, k + r.g)                        \* input of a halving at level k
IsHalving(r, c) == \E k \in (r.g + 1)..L(r) : Len(c.inp) = InSize(r, k) /\ 2 * Len(c.out) = Len(c.inp)
CallsOf(r, k) == {i \in 1..(Len(r.calls) - 1) : Len(r.calls[i].inp) = InSize(r, k)}
Plain(r) ==
  CASE r.expect = "error" -> IF r.status = "ok" THEN "infeasible setting answered"
                             ELSE IF Feasible(r) THEN "harness thinks a feasible setting infeasible" ELSE "ok"
    [] r.status # "ok" -> "feasible setting refused: " \o r.status
    [] Len(r.idx) # r.size -> "wrong size"
    [] Cardinality(Ran(r.idx)) # r.size -> "repeated row"
    [] Ran(r.idx) \ (1..r.n) # {} -> "index out of range"
    [] OTHER -> "ok"
\* rows at one level: every call keeps rows it was given, calls do not overlap
LevelOK(r, k, alive) ==
  LET cs == CallsOf(r, k) IN
    /\ Cardinality(cs) = Pow(4, L(r) - k)
    /\ \A i \in cs : /\ Cardinality(Ran(r.calls[i].inp)) = InSize(r, k)
                     /\ Ran(r.calls[i].out) \subseteq Ran(r.calls[i].inp)
                     /\ 2 * Cardinality(Ran(r.calls[i].out)) = InSize(r, k)
    /\ \A i, j \in cs : i # j => Ran(r.calls[i].inp) \cap Ran(r.calls[j].inp) = {}
    /\ alive # {} => UNION {Ran(r.calls[i].inp) : i \in cs} = alive
\* each input is the union of four parts of the level before
FourParts(r, k) ==
  k = r.g + 1 \/ \A i \in CallsOf(r, k) :
     Cardinality({j \in CallsOf(r, k - 1) : Ran(r.calls[j].out) \subseteq Ran(r.calls[i].inp)}) = 4
Outs(r, k) == UNION {Ran(r.calls[i].out) : i \in CallsOf(r, k)}
Last(r) == r.calls[Len(r.calls)]
Final(r, alive) ==
  CASE Cardinality(Ran(Last(r).inp)) # Pow(2, r.g + L(r)) -> "last thinning does not start from 2^g sqrt(N) rows"
    [] alive # {} /\ Ran(Last(r).inp) # alive -> "last thinning starts from other rows"
    [] Last(r).out # r.idx -> "result is not what the last thinning kept"
    [] \E i \in 1..Len(r.calls) : r.calls[i].cfg # 0 -> "thinning uses another kernel or delta"
    [] OTHER -> "ok"
Init == l = 1 /\ parts = {} /\ lev = 0 /\ todo = "plain"
Move(v) == /\ v # "ok" => PrintT(<<"BAD", l, v>>)
           /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
           /\ l' = l + 1 /\ parts' = {} /\ lev' = 0 /\ todo' = "plain"
Next ==
  /\ l <= Len(Trace)
  /\ IF todo = "plain" THEN
       IF Plain(Rec) # "ok" \/ Rec.expect = "error" \/ Rec.calls = <<>> THEN Move(Plain(Rec))
       ELSE todo' = "level" /\ lev' = Rec.g + 1 /\ UNCHANGED <<l, parts>>
     ELSE IF todo = "level" /\ lev <= L(Rec) THEN
       IF ~LevelOK(Rec, lev, parts) \/ ~FourParts(Rec, lev) THEN Move("halving level does not follow the recursion")
       ELSE lev' = lev + 1 /\ parts' = Outs(Rec, lev) /\ UNCHANGED <<l, todo>>
     ELSE Move(Final(Rec, parts))
Spec == Init /\ [][Next]_vars
================================================================================
