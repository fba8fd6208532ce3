------------------------------ MODULE KernelTrace ------------------------------
(* Recorded kernel evaluations.                                                     *)
(*  exact   integer expression at integer points: value, gradients and divergence   *)
(*          must equal the dual-number meaning, through every calling form          *)
(*  smooth  expression over library kernels at points in quarters: the value is the *)
(*          documented formula (fixed point), the derivatives are those of the      *)
(*          recorded values by fourth-order differences (step 1/32, values times U) *)
(*  forms   the same evaluation through scalars, vectors, matrices                  *)
(*  sqrt    square-root kernel against its kernel, convolved over a grid            *)
(*  guard   a construction the library has to accept or to refuse                   *)
EXTENDS KernelAlg, FixMath, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
Sq(x, y) == SumK([i \in 1..Len(x) |-> (x[i] - y[i]) * (x[i] - y[i])], Len(x)) * 625
L1(x, y) == SumK([i \in 1..Len(x) |-> Abs(x[i] - y[i])], Len(x)) * 2500
DotF(x, y) == DotZ(x, y) * 625
Norm(x, y) == Sqrt(Sq(x, y))
L2(q) == Mul(q, q)
Matern(p, z) ==    \* exp(-z) p!/(2p)! sum (p+i)!/(i!(p-i)!) (2z)^(p-i)
  Mul(ExpNeg(z), SumK([j \in 1..(p + 1) |->
      Mul(Round(S * Fact(p) * Fact(p + j - 1), Fact(2 * p) * Fact(j - 1) * Fact(p - j + 1)), PowF(2 * z, p - j + 1))], p + 1))
Periodic(a, len, per, x, y) == Mul(a, ExpNeg(Quot(S - Cos(Mul(TwoPi, Quot(Norm(x, y), per))), L2(len))))
SqExp(a, len, x, y) == Mul(a, ExpNeg(Quot(Sq(x, y), 2 * L2(len))))
RECURSIVE Val(_, _, _)
Val(ex, x, y) ==   \* parameters in fixed point: a output scale, then length scale, then the rest
  LET p == ex.p IN
  CASE ex.op = "lin"   -> Mul(p[1], DotF(x, y)) + p[2]
    [] ex.op = "poly"  -> Mul(p[1], PowF(DotF(x, y) + p[2], p[3]))
    [] ex.op = "const" -> p[1]
    [] ex.op = "exp"   -> Mul(p[1], ExpNeg(Quot(Norm(x, y), 2 * L2(p[2]))))
    [] ex.op = "lap"   -> Mul(p[1], ExpNeg(Quot(L1(x, y), 2 * L2(p[2]))))
    [] ex.op = "se"    -> SqExp(p[1], p[2], x, y)
    [] ex.op = "pc"    -> Quot(p[1], Sqrt(S + Quot(Sq(x, y), 2 * L2(p[2]))))
    [] ex.op = "rq"    -> LET b == S + Quot(Sq(x, y), p[3] * L2(p[2])) IN   \* p[3] = 2 alpha
                          Quot(p[1], IF p[3] % 2 = 0 THEN PowF(b, p[3] \div 2) ELSE Mul(PowF(b, p[3] \div 2), Sqrt(b)))
    [] ex.op = "mat"   -> Mul(Mul(p[1], p[1]), Matern(p[3], Quot(Mul(Sqrt((2 * p[3] + 1) * S), Norm(x, y)), p[2])))
    [] ex.op = "per"   -> Periodic(p[1], p[2], p[3], x, y)
    [] ex.op = "lp"    -> Mul(Periodic(p[1], p[2], p[3], x, y), SqExp(p[4], p[5], x, y))
    [] ex.op = "poi"   -> Quot(p[1], S - 2 * Mul(p[2], Cos(Norm(x, y))) + L2(p[2]))
    [] ex.op = "add"   -> Val(ex.s[1], x, y) + Val(ex.s[2], x, y)
    [] ex.op = "mul"   -> Mul(Val(ex.s[1], x, y), Val(ex.s[2], x, y))
    [] ex.op = "pow"   -> PowF(Val(ex.s[1], x, y), p[1])
\* first difference of <<f(-2h), f(-h), f(h), f(2h)>>, times 12 h
D4(f) == 8 * (f[3] - f[2]) - (f[4] - f[1])
\* reported g (times U) against the difference D = 12 h g, h = 1/32: g = 8 D / 3
GradOff(D, g, tol) == Abs((8 * D) \div 3 - g) > tol + Abs(g) \div 300
\* mixed: rows of the 4 x 4 table differenced twice, 144 h^2 = 9/64
D44(F) == D4([a \in 1..4 |-> D4(F[a])])
\* sum of the mixed differences over coordinates against the divergence
DivOff(M, g, tol) == LET t == SumK([i \in 1..Len(M) |-> D44(M[i])], Len(M)) IN Abs((t \div 9) * 64 - g) > tol + Abs(g) \div 60
Exact(r) ==
  LET m == Meaning(r.ex, r.x, r.y) IN
  CASE r.v # m.v -> "value is not that of the composed kernels"
    [] r.gx # m.gx -> "gradient in x is not that of the composed kernels"
    [] r.gy # m.gy -> "gradient in y is not that of the composed kernels"
    [] r.dv # m.dv -> "divergence is not that of the composed kernels"
    [] r.vs # m.v -> "kernel is not symmetric"
    [] OTHER -> "ok"
Smooth(r) ==
  LET d == Len(r.x) IN
  CASE r.nan -> "value or derivative is not finite"
    [] Abs(r.v - r.vs) > 30 -> "kernel is not symmetric"
    [] Abs(Round(r.v, 1000) - Val(r.ex, r.x, r.y)) > r.tolv + Abs(r.v) \div 60000 -> "value is not the documented formula"
    [] \E i \in 1..d : GradOff(D4(r.FX[i]), r.gx[i], r.tolg) -> "gradient in x is not the derivative of the values"
    [] \E i \in 1..d : GradOff(D4(r.FY[i]), r.gy[i], r.tolg) -> "gradient in y is not the derivative of the values"
    [] DivOff(r.FXY, r.dv, r.told) -> "divergence is not that of the values"
    [] OTHER -> "ok"
Forms(r) ==
  CASE r.shape # r.want -> "wrong shape: " \o r.form
    [] Len(r.got) # Len(r.ref) -> "wrong number of entries: " \o r.form
    [] \E i \in 1..Len(r.ref) : Abs(r.got[i] - r.ref[i]) > 20 + Abs(r.ref[i]) \div 10000 -> "vectorised and single-point evaluation differ: " \o r.form
    [] OTHER -> "ok"
Expected(r) ==
  CASE r.rule = "pow" -> ValidPow(r.h, r.isint)
    [] r.rule = "const" -> ValidConst(r.h)
    [] r.rule = "positive" -> r.h > 0
    [] r.rule = "nonneg" -> r.h >= 0
    [] r.rule = "degree2" -> r.isint /\ r.h >= 4
    [] r.rule = "degree0" -> r.isint /\ r.h >= 0
    [] r.rule = "unit" -> r.h > 0 /\ r.h < 2
    [] r.rule = "operand" -> FALSE
Guard(r) ==
  CASE Expected(r) /\ ~r.accepted -> "valid construction refused: " \o r.what
    [] ~Expected(r) /\ r.accepted -> "invalid construction accepted: " \o r.what
    [] OTHER -> "ok"
SqrtK(r) ==
  LET t == Mul(SumK([i \in 1..Len(r.A) |-> Mul(r.A[i], r.B[i])], Len(r.A)), r.cell)
  IN IF Abs(t - r.v) > 60 + r.v \div 50 THEN "the square-root kernel convolved with itself is not the kernel: " \o r.what ELSE "ok"
Verdict(r) ==
  CASE r.status # "ok" -> "call raised an error: " \o r.status
    [] r.kind = "exact" -> Exact(r)
    [] r.kind = "smooth" -> Smooth(r)
    [] r.kind = "forms" -> Forms(r)
    [] r.kind = "guard" -> Guard(r)
    [] r.kind = "sqrt" -> SqrtK(r)
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET v == Verdict(Trace[l]) IN v # "ok" => PrintT(<<"BAD", l, v>>)
  /\ l = Len(Trace) => PrintT(<<"DONE", l>>)
Spec == Init /\ [][Next]_l
================================================================================
