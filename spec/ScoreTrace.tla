------------------------------- MODULE ScoreTrace -------------------------------
(* Recorded scores, Stein kernel values and conversions.                            *)
(*  kde     score of a kernel density match at a point, through some calling form   *)
(*  exact   Stein kernel of an integer expression with an affine integer score      *)
(*  stein   Stein kernel against recorded base derivatives and scores (four dec.)   *)
(*  convert a history of conversions, then the resulting scores and kernel value    *)
EXTENDS ScoreCore, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
DotS(u, v) == SumK([i \in 1..Len(u) |-> Mul(u[i], v[i])], Len(u))
SteinS(b, sx, sy) == b.dv + DotS(b.gx, sy) + DotS(b.gy, sx) + Mul(b.k, DotS(sx, sy))
Mag(u) == SumK([i \in 1..Len(u) |-> AbsF(u[i])], Len(u))
\* rounding of the recorded numbers, carried through the products
SteinTol(b, sx, sy) == 20 + Round(2 * (Mag(b.gx) + Mag(b.gy) + Mag(sx) + Mag(sy)) + Mul(AbsF(b.k), Mag(sx) + Mag(sy)) + 2 * Mul(Mag(sx), Mag(sy)), S)
SteinOff(b, sx, sy, v, more) == AbsF(SteinS(b, sx, sy) - v) > SteinTol(b, sx, sy) + more
Off(u, v, t) == Len(u) # Len(v) \/ \E i \in 1..Len(u) : AbsF(u[i] - v[i]) > t
RECURSIVE Fold(_, _)
Fold(r, n) == IF n = 0 THEN [base |-> r.base, stein |-> r.stein, src |-> <<"given", 0>>]
              ELSE Convert(Fold(r, n - 1), r.ops[n].m, r.ops[n].data)
Own(b) == CASE b = "se" -> 12000 [] b = "pc" -> 8000 [] OTHER -> 10000
AffS(A, b, z) == [i \in 1..Len(z) |-> 2500 * (DotZ(A[i], z) + b[i])]
ScoreOf(r, src, z) ==
  CASE src[1] = "given" -> AffS(r.A, r.b, z)
    [] src[1] = "affine" -> AffS(r.A2, r.data[src[2]][1], z)
    [] src[1] = "kde1" -> KDEScore(r.data[src[2]], 10000, z)
    [] src[1] = "kde2" -> KDEScore(r.data[src[2]], 6000, z)
    [] src[1] = "own" -> KDEScore(r.data[src[2]], Own(r.base), z)
Verdict(r) ==
  CASE r.status # "ok" -> "call raised an error: " \o r.status
    [] r.nan -> "score or kernel value is not finite"
    [] r.kind = "kde" ->
        (CASE r.shape # r.want -> "score has the wrong shape: " \o r.form
           [] Off(KDEScore(r.data, r.h, r.x), r.s, r.tol) -> "score is not the gradient of the log density: " \o r.form
           [] OTHER -> "ok")
    [] r.kind = "exact" ->
        (LET sx == Affine(r.A, r.b, r.x) sy == Affine(r.A, r.b, r.y)
         IN IF Stein(Meaning(r.ex, r.x, r.y), sx, sy) # r.v THEN "Stein kernel is not the documented combination: " \o r.form ELSE "ok")
    [] r.kind = "stein" -> (IF SteinOff(r, r.sx, r.sy, r.v, r.tol) THEN "Stein kernel is not the documented combination: " \o r.form ELSE "ok")
    [] r.kind = "convert" ->
        (LET k == Fold(r, Len(r.ops)) IN
         CASE Off(ScoreOf(r, k.src, r.x), r.sx, r.tol) \/ Off(ScoreOf(r, k.src, r.y), r.sy, r.tol) -> "converted kernel has another score than " \o k.src[1]
           [] SteinOff(r, r.sx, r.sy, r.v, 0) -> "converted kernel is not the Stein kernel of its base kernel"
           [] OTHER -> "ok")
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
================================================================================
