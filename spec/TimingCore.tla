-------------------------------- MODULE TimingCore --------------------------------
(* Timing of functions that are compiled on first use.  Costs are whole ticks:       *)
(* tracing a function costs t, its executions cost whatever they cost.  Timing one   *)
(* function once means calling a freshly compiled copy twice.                        *)
EXTENDS Integers, Sequences, TLC
RECURSIVE TSum(_, _)
TSum(s, k) == IF k = 0 THEN 0 ELSE s[k] + TSum(s, k - 1)
Total(s) == TSum(s, Len(s))
\* one timed run: c tracing, a first execution, b second execution
First(r) == r.c + r.a
Second(r) == r.b
\* the compilation estimate is the first time less the second
Row(r) == <<First(r) - Second(r), Second(r)>>
Column(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]
\* n times the mean, and n^2 times the (population) variance
MeanN(s) == Total(s)
VarNN(s) == Len(s) * Total([i \in 1..Len(s) |-> s[i] * s[i]]) - Total(s) * Total(s)
\* names: the given one, or function_k with k the position
NameOf(fs, i) == IF fs[i].name = "" THEN "function_" \o ToString(i) ELSE fs[i].name

\* display of a time of m * 10^e seconds (m > 0): the unit follows from the order of magnitude
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
RECURSIVE Digits(_)
Digits(m) == IF m < 10 THEN 1 ELSE 1 + Digits(m \div 10)
\* floor of log10 of m * 10^e
Order(m, e) == Digits(m) - 1 + e
Unit(m, e) == LET o == Order(m, e) IN
  CASE o >= 2 -> "mins" [] o >= 0 -> "s" [] o >= -3 -> "ms" [] o >= -6 -> "us" [] o >= -9 -> "ns" [] OTHER -> "ps"
Shift(u) == CASE u = "s" -> 0 [] u = "ms" -> 3 [] u = "us" -> 6 [] u = "ns" -> 9 [] u = "ps" -> 12 [] OTHER -> 0
=================================================================================
