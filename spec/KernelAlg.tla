------------------------------- MODULE KernelAlg -------------------------------
(* Algebra of kernel expressions.  An expression is [op, p, s]: parameters p and    *)
(* subexpressions s.  Integer leaves lin <<a, c>> = a x.y + c and poly <<a, c, n>>   *)
(* = a (x.y + c)^n; const <<c>>; add, mul, pow <<n>>.                                *)
(* Two meanings: Dual evaluates over Z[e,d]/(e^2,d^2), one coordinate at a time, so  *)
(* its coefficients are the value, both partial derivatives and the mixed one; Jet   *)
(* composes whole gradients and divergences by the rules of calculus.                *)
EXTENDS Integers, Sequences
RECURSIVE SumK(_, _)
SumK(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumK(f, k - 1)
DotZ(x, y) == SumK([i \in 1..Len(x) |-> x[i] * y[i]], Len(x))
DAdd(a, b) == [v |-> a.v + b.v, e |-> a.e + b.e, d |-> a.d + b.d, m |-> a.m + b.m]
DMul(a, b) == [v |-> a.v * b.v, e |-> a.v * b.e + a.e * b.v, d |-> a.v * b.d + a.d * b.v,
               m |-> a.v * b.m + a.e * b.d + a.d * b.e + a.m * b.v]
DC(c) == [v |-> c, e |-> 0, d |-> 0, m |-> 0]
RECURSIVE DPow(_, _)
DPow(a, n) == IF n = 1 THEN a ELSE DMul(a, DPow(a, n - 1))
RECURSIVE Dual(_, _, _, _)
Dual(ex, x, y, i) ==
  LET xy == [v |-> DotZ(x, y), e |-> y[i], d |-> x[i], m |-> 1] IN
  CASE ex.op = "lin"   -> DAdd(DMul(DC(ex.p[1]), xy), DC(ex.p[2]))
    [] ex.op = "poly"  -> DMul(DC(ex.p[1]), DPow(DAdd(xy, DC(ex.p[2])), ex.p[3]))
    [] ex.op = "const" -> DC(ex.p[1])
    [] ex.op = "add"   -> DAdd(Dual(ex.s[1], x, y, i), Dual(ex.s[2], x, y, i))
    [] ex.op = "mul"   -> DMul(Dual(ex.s[1], x, y, i), Dual(ex.s[2], x, y, i))
    [] ex.op = "pow"   -> DPow(Dual(ex.s[1], x, y, i), ex.p[1])
Meaning(ex, x, y) ==
  LET d == Len(x)
      D == [i \in 1..d |-> Dual(ex, x, y, i)]
  IN [v |-> D[1].v, gx |-> [i \in 1..d |-> D[i].e], gy |-> [i \in 1..d |-> D[i].d],
      dv |-> SumK([i \in 1..d |-> D[i].m], d)]
\* the same by the chain rules on whole vectors
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)
Scale(c, v) == [i \in 1..Len(v) |-> c * v[i]]
VAdd(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
JMul(a, b) == [v |-> a.v * b.v, gx |-> VAdd(Scale(b.v, a.gx), Scale(a.v, b.gx)),
               gy |-> VAdd(Scale(b.v, a.gy), Scale(a.v, b.gy)),
               dv |-> DotZ(a.gx, b.gy) + DotZ(a.gy, b.gx) + a.v * b.dv + b.v * a.dv]
JPow(a, n) == [v |-> IPow(a.v, n), gx |-> Scale(n * IPow(a.v, n - 1), a.gx), gy |-> Scale(n * IPow(a.v, n - 1), a.gy),
               dv |-> n * (IPow(a.v, n - 1) * a.dv + (IF n = 1 THEN 0 ELSE (n - 1) * IPow(a.v, n - 2) * DotZ(a.gx, a.gy)))]
RECURSIVE Jet(_, _, _)
Jet(ex, x, y) ==
  LET d == Len(x)
      xy == [v |-> DotZ(x, y), gx |-> y, gy |-> x, dv |-> d]
      C(c) == [v |-> c, gx |-> [i \in 1..d |-> 0], gy |-> [i \in 1..d |-> 0], dv |-> 0]
      A(a, b) == [v |-> a.v + b.v, gx |-> VAdd(a.gx, b.gx), gy |-> VAdd(a.gy, b.gy), dv |-> a.dv + b.dv]
  IN CASE ex.op = "lin"   -> A(JMul(C(ex.p[1]), xy), C(ex.p[2]))
       [] ex.op = "poly"  -> JMul(C(ex.p[1]), JPow(A(xy, C(ex.p[2])), ex.p[3]))
       [] ex.op = "const" -> C(ex.p[1])
       [] ex.op = "add"   -> A(Jet(ex.s[1], x, y), Jet(ex.s[2], x, y))
       [] ex.op = "mul"   -> JMul(Jet(ex.s[1], x, y), Jet(ex.s[2], x, y))
       [] ex.op = "pow"   -> JPow(Jet(ex.s[1], x, y), ex.p[1])
\* the library accepts exactly these compositions (numbers as halves: h = 2 * number)
ValidPow(h, isint) == isint /\ h >= 2
ValidConst(h) == h >= 0
================================================================================
