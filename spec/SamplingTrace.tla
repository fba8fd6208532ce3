----------------------------- MODULE SamplingTrace -----------------------------
(* Random sampling.  A record counts, over N independent keys, the outcomes of one  *)
(* request.  Kinds:                                                                 *)
(*   without  m of n uniformly without replacement (all m-subsets equally likely)   *)
(*   with     m independent uniform draws (all sequences equally likely)            *)
(*   wwithout one or two draws without replacement, chances proportional to weight  *)
(*   wwith    two independent draws, chances proportional to weight                 *)
(*   batches  k independent uniform m-subsets                                       *)
(*   marginal many points: how often each point, and each pair of points, was drawn *)
(*   wmarginal many points, independent draws: how often each point was drawn       *)
EXTENDS Integers, Sequences, FiniteSets, Freq, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l

Ran(s) == {s[i] : i \in 1..Len(s)}
Pts(r) == 1..r.n
Subs(r) == {A \in SUBSET Pts(r) : Cardinality(A) = r.m}
Seqs(r) == [1..r.m -> Pts(r)]
SetHits(r, A) == SumUp([i \in 1..Len(r.hist) |-> IF Ran(r.hist[i].s) = A THEN r.hist[i].c ELSE 0])
SeqHits(r, s) == SumUp([i \in 1..Len(r.hist) |-> IF r.hist[i].s = s THEN r.hist[i].c ELSE 0])
BatchHits(r, As) == SumUp([i \in 1..Len(r.hist) |->
    IF \A b \in 1..Len(As) : Ran(r.hist[i].s[b]) = As[b] THEN r.hist[i].c ELSE 0])
W(r) == SumUp(r.w)
\* probability of the pair {x, y} drawn without replacement: w_x w_y (2W - w_x - w_y) / (W (W-w_x) (W-w_y))
PairNum(r, x, y) == r.w[x] * r.w[y] * (2 * W(r) - r.w[x] - r.w[y])
PairDen(r, x, y) == W(r) * (W(r) - r.w[x]) * (W(r) - r.w[y])
SetOK(r, A) ==
  IF r.m = 1 THEN \A x \in A : FreqOK(SetHits(r, A), r.N, r.w[x], W(r))
  ELSE \A x, y \in A : x < y =>
         IF r.w[x] = 0 \/ r.w[y] = 0 THEN SetHits(r, A) = 0
         ELSE FreqOK(SetHits(r, A), r.N, PairNum(r, x, y), PairDen(r, x, y))
Shape(s, r) == Len(s) = r.m /\ Ran(s) \subseteq Pts(r)
NoRep(s) == Cardinality(Ran(s)) = Len(s)
AllSeqs(r) == IF r.kind = "batches" THEN {r.hist[i].s[b] : i \in 1..Len(r.hist), b \in 1..r.k}
              ELSE {r.hist[i].s : i \in 1..Len(r.hist)}
Marginal(r) ==
  CASE r.bad # 0 -> "wrong size, repeated draw or index out of range"
    [] r.kind = "marginal" /\ \E i \in Pts(r) : ~FreqOK(r.hits[i], r.N, r.m, r.n) -> "points are not equally likely"
    [] r.kind = "marginal" /\ \E i, j \in 1..Len(r.pairs) : i < j /\ ~FreqOK(r.pairs[i][j], r.N, r.m * (r.m - 1), r.n * (r.n - 1))
         -> "pairs of points are not equally likely"
    [] r.kind = "wmarginal" /\ \E i \in Pts(r) : ~FreqOK(r.hits[i], r.N * r.m, r.w[i], W(r)) -> "draws do not follow the weights"
    [] OTHER -> "ok"
Verdict(r) ==
  CASE r.expect = "error" -> IF r.status = "ok" THEN "infeasible request answered" ELSE "ok"
    [] r.status # "ok" -> "call raised an error: " \o r.status
    [] r.kind \in {"marginal", "wmarginal"} -> Marginal(r)
    [] r.kind = "batches" /\ \E i \in 1..Len(r.hist) : Len(r.hist[i].s) # r.k -> "wrong number of batches"
    [] \E s \in AllSeqs(r) : ~Shape(s, r) -> "wrong size or index out of range"
    [] r.kind \in {"without", "wwithout", "batches"} /\ \E s \in AllSeqs(r) : ~NoRep(s) -> "repeated draw"
    [] r.kind = "without" /\ \E A \in Subs(r) : ~FreqOK(SetHits(r, A), r.N, 1, Cardinality(Subs(r)))
         -> "subsets are not equally likely"
    [] r.kind = "with" /\ \E s \in Seqs(r) : ~FreqOK(SeqHits(r, s), r.N, 1, Cardinality(Seqs(r)))
         -> "draws are not independent and uniform"
    [] r.kind = "wwith" /\ \E s \in Seqs(r) : ~FreqOK(SeqHits(r, s), r.N, r.w[s[1]] * r.w[s[2]], W(r) * W(r))
         -> "draws do not follow the weights"
    [] r.kind = "wwithout" /\ \E A \in Subs(r) : ~SetOK(r, A) -> "draws do not follow the weights"
    [] r.kind = "batches" /\ \E As \in [1..r.k -> Subs(r)] :
           ~FreqOK(BatchHits(r, As), r.N, 1, Cardinality([1..r.k -> Subs(r)]))
         -> "batches are not independent and uniform"
    [] OTHER -> "ok"
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
================================================================================
