--------------------------- MODULE LeastSquaresTrace ---------------------------
(* Recorded solutions of regularised systems.  X and the targets are scaled by S.   *)
EXTENDS LeastSquares, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Small(u, t) == \A i \in 1..Len(u) : AbsL(u[i]) <= t
Col(X, c) == [i \in 1..Len(X) |-> X[i][c]]
Solve(r) ==
  LET M2 == Reg2(r.A, r.lam2, r.id)
      n == Len(r.A)
      Z == IF r.full THEN {} ELSE Null(M2, {-2, -1, 0, 1, 2})
      cols == 1..Len(r.B[1])
  IN CASE r.nan -> "solution is not finite"
       [] Len(r.X) # n \/ Len(r.X[1]) # Len(r.B[1]) -> "solution has the wrong shape"
       [] r.full /\ \E c \in cols : ~Small(Residual(M2, Col(r.X, c), Col(r.B, c)), r.tol) -> "solution does not satisfy the regularised system"
       [] ~r.full /\ \E c \in cols : ~Small(MV(M2, Residual(M2, Col(r.X, c), Col(r.B, c))), r.tol) -> "solution does not minimise the residual"
       [] \E c \in cols, v \in Z : AbsL(DotL(v, Col(r.X, c))) > r.toln -> "solution is not the one of smallest norm"
       [] \E i \in 1..n, c \in cols : r.id[i] = 0 /\ (\A j \in 1..n : r.A[i][j] = 0) /\ AbsL(r.X[i][c]) > r.toln -> "padding rows of the solution are not zero"
       [] OTHER -> "ok"
Same(r) == IF r.a # r.b THEN "solving a stack differs from solving its members" ELSE "ok"
Valid(r) == CASE r.rule = "over" -> r.isint /\ r.h > 0
              [] r.rule = "power" -> r.isint /\ r.h >= 0
              [] r.rule = "rcond" -> r.h >= 0 \/ r.h = -2
              [] r.rule = "square" -> r.h = 1
Guard(r) == CASE Valid(r) /\ ~r.accepted -> "valid argument refused: " \o r.what
              [] ~Valid(r) /\ r.accepted -> "invalid argument accepted: " \o r.what
              [] OTHER -> "ok"
Verdict(r) == CASE r.status # "ok" -> "call raised an error: " \o r.status
                [] r.kind = "solve" -> Solve(r)
                [] r.kind = "stack" -> Same(r)
                [] r.kind = "guard" -> Guard(r)
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
================================================================================
