-------------------------------- MODULE ObjectsMC -------------------------------
(* Histories of operations on data and coreset objects.  Checked exhaustively for    *)
(* short histories; run in simulation mode it writes histories for replay.           *)
EXTENDS ObjectsCore, TLC, Json
CONSTANTS Depth, MaxN, Emit
VARIABLES st, hist, orig
vars == <<st, hist, orig>>
\* distinct values everywhere, so that a misaligned row is visible
XRow(i, d) == [j \in 1..d |-> 10 * i + j]
YRow(i, p) == [j \in 1..p |-> 100 * i + j]
Xs(n, d, o) == [i \in 1..n |-> XRow(i + o, d)]
Ys(n, p) == IF p = 0 THEN <<>> ELSE [i \in 1..n |-> YRow(i, p)]
Ramp(n, a) == [i \in 1..n |-> (a * i) % 7]
WArgs(n) == {[k |-> "none", W |-> <<>>], [k |-> "scalar", W |-> <<3>>], [k |-> "scalar", W |-> <<0>>],
             [k |-> "vector", W |-> Ramp(n, 2)], [k |-> "vector", W |-> [i \in 1..n |-> IF i = 2 THEN 0 ELSE i]],
             [k |-> "vector", W |-> Const(n, 0)]} \cup
            (IF n > 1 THEN {[k |-> "vector", W |-> Ramp(n + 1, 3)]} ELSE {}) \cup
            (IF n > 2 THEN {[k |-> "vector", W |-> Ramp(n - 1, 3)]} ELSE {})
\* weights of a new dataset may also be of mixed sign, or fractions W / div: tiny, or summing to nearly (not exactly) one
Fracs(n) == {[k |-> "vector", W |-> [i \in 1..n |-> IF i = 2 THEN -1 ELSE 3 + i], div |-> 1],
             [k |-> "vector", W |-> [i \in 1..n |-> IF i = 1 THEN 101 - 7 * (n - 1) ELSE 7], div |-> 100],
             [k |-> "vector", W |-> [i \in 1..n |-> IF i = 1 THEN 996 - 150 * (n - 1) ELSE 150], div |-> 1000],
             [k |-> "vector", W |-> [i \in 1..n |-> 2 * i - 1], div |-> 1048576]}
NewArgs(n) == {[k |-> a.k, W |-> a.W, div |-> 1] : a \in WArgs(n)} \cup Fracs(n)
Op == [op |-> "", div |-> 1, X |-> <<>>, Y |-> <<>>, W |-> <<>>, wkind |-> "none", sel |-> <<>>, k |-> 0, via |-> "", form |-> "matrix"]
News == UNION {UNION {{[Op EXCEPT !.op = "new", !.X = Xs(n, d, 0), !.Y = Ys(m, p), !.wkind = a.k, !.W = a.W, !.div = a.div, !.form = f]
           : a \in NewArgs(n), f \in (IF d > 1 THEN {"matrix"} ELSE IF n > 1 THEN {"matrix", "vector"} ELSE {"vector", "scalar"})}
           : m \in (IF p = 0 THEN {n} ELSE {n, n + 1})}
           : <<n, d, p>> \in (1..MaxN) \X {1, 2} \X {0, 1, 2}}
Rng(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Every2(n) == [i \in 1..((n + 1) \div 2) |-> 2 * i - 1]
Back(n) == [i \in 1..n |-> n + 1 - i]
Sels(n) == {Back(n), Rng(1, n), Every2(n), <<n>>, <<n, 1>>, <<1, 1>>} \cup (IF n > 1 THEN {Rng(2, n), Rng(1, n - 1), <<2, 1, 2>>} ELSE {})
\* how the rows are selected: an index array, a slice, or a boolean mask
Vias(n, s) == {"index"} \cup (IF s \in {Rng(2, n), Rng(1, n - 1), Every2(n), Back(n)} THEN {"slice"} ELSE {}) \cup
              (IF \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1] THEN {"mask"} ELSE {})
Sane(m) == {a \in WArgs(m) : a.k # "vector" \/ Len(a.W) = m}
DataOps(s) == LET n == N(s) IN
  UNION {{[Op EXCEPT !.op = "take", !.sel = q, !.via = v] : v \in Vias(n, q)} : q \in Sels(n)} \cup
  {[Op EXCEPT !.op = "pad", !.k = k] : k \in {0, 1, 2, -1}} \cup
  {[Op EXCEPT !.op = q] : q \in {"jit", "asdata"} \cup (IF Tot(s.rows.w) = 0 THEN {} ELSE {"norm"})
                             \cup (IF Tot(s.rows.w) = 0 /\ s.rows.w # Const(n, 0) THEN {} ELSE {"normz"})} \cup
  UNION {{[Op EXCEPT !.op = "subset", !.sel = q, !.wkind = a.k, !.W = a.W, !.via = v]
            : <<a, v>> \in Sane(Len(q)) \X {"data", "array", "init"}}
           : q \in Sels(n) \cup {Rng(1, n) \o <<1>>}} \cup
  {[Op EXCEPT !.op = "subset", !.sel = <<1>>, !.via = v] : v \in {"raw-nodes", "raw-data"}} \cup
  UNION {{[Op EXCEPT !.op = "subset", !.sel = q, !.wkind = a.k, !.W = a.W, !.via = "data"] : a \in WArgs(Len(q)) \ Sane(Len(q))} : q \in Sels(n)} \cup
  UNION {{[Op EXCEPT !.op = "pseudo", !.X = Xs(m, Len(s.rows.x[1]), 50), !.wkind = a.k, !.W = a.W, !.via = v]
            : <<a, v>> \in Sane(m) \X {"data", "array", "init"}}
           : m \in {1, n, n + 1}} \cup
  {[Op EXCEPT !.op = "pseudo", !.X = Xs(1, Len(s.rows.x[1]), 50), !.via = v] : v \in {"raw-nodes", "raw-data"}}
CoresetOps(s) == LET n == N(s) IN
  {[Op EXCEPT !.op = q] : q \in {"points", "pre", "jit"}} \cup
  {[Op EXCEPT !.op = "solve", !.W = w] : w \in {Ramp(n, 3), Const(n, 1), Const(n, 0)}}
Ops(s) == CASE s.kind = "none" -> News [] s.kind = "data" -> DataOps(s) [] OTHER -> CoresetOps(s)
Init == st = Nothing /\ hist = <<>> /\ orig = NoData
Do(o) == /\ hist' = IF Emit THEN Append(hist, o) ELSE <<Len(hist)>> \o hist
         /\ st' = IF Accepts(st, o) THEN Apply(st, o) ELSE st
         /\ orig' = IF o.op = "new" /\ Accepts(st, o) THEN Apply(st, o).rows ELSE orig
\* one disjunct per kind of operation, so that simulation mixes the kinds evenly
Step(k) == Len(hist) < Depth /\ \E o \in {q \in Ops(st) : q.op = k} : Do(o)
Finish == /\ Len(hist) = Depth /\ Emit
          /\ PrintT(<<"HIST", ToJson(hist)>>)
          /\ hist' = Append(hist, Op) /\ UNCHANGED <<st, orig>>
Next == Finish \/ Step("new") \/ Step("take") \/ Step("pad") \/ Step("norm") \/ Step("normz") \/ Step("jit") \/ Step("asdata")
        \/ Step("subset") \/ Step("pseudo") \/ Step("points") \/ Step("pre") \/ Step("solve")
Spec == Init /\ [][Next]_vars
Aligned(d) == /\ Len(d.w) = Len(d.x) /\ (d.y # <<>> => Len(d.y) = Len(d.x)) /\ d.wd >= 1
\* every row of every dataset reachable from the object is an original row or padding
IsZero(v) == \A j \in 1..Len(v) : v[j] = 0
FromOrig(d) == \A i \in 1..Len(d.x) :
   \/ IsZero(d.x[i]) /\ (d.y # <<>> => IsZero(d.y[i]))
   \/ \E h \in 1..Len(orig.x) : d.x[i] = orig.x[h] /\ (d.y # <<>> => d.y[i] = orig.y[h])
   \/ d.y = <<>> /\ d.x[i][1] > 500
RowsAligned == Aligned(st.rows) /\ Aligned(st.pre)
RowsGenuine == FromOrig(st.rows) /\ FromOrig(st.pre)
CoresetSmall == st.kind \in {"subset", "pseudo"} => Len(st.rows.x) <= Len(st.pre.x)
SubsetOfData == st.kind = "subset" => \A i \in 1..Len(st.idx) : st.rows.x[i] = st.pre.x[st.idx[i]]
NormSums == [][(st.kind = "data" /\ st'.kind = "data" /\ st'.rows.x = st.rows.x /\ st'.rows.wd # st.rows.wd)
                 => Tot(st'.rows.w) = st'.rows.wd \/ Tot(st.rows.w) = 0]_vars
=================================================================================
