------------------------------- MODULE ObjectsCore ------------------------------
(* The data and coreset objects as values: a dataset is a sequence of rows, each a   *)
(* feature vector, a response vector (empty when unsupervised) and a weight; a       *)
(* coreset refers to such a dataset.  Weights are integers over a common divisor.    *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE OSum(_, _)
OSum(s, k) == IF k = 0 THEN 0 ELSE s[k] + OSum(s, k - 1)
Tot(s) == OSum(s, Len(s))
Const(n, v) == [i \in 1..n |-> v]
NoData == [x |-> <<>>, y |-> <<>>, w |-> <<>>, wd |-> 1]
\* a dataset of n rows; y is <<>> when there are no responses
DataSet(x, y, w) == [x |-> x, y |-> y, w |-> w, wd |-> 1]
\* the state of a history: the kind of object at hand, its rows, the dataset it refers to
Obj(kind, rows, pre, idx) == [kind |-> kind, rows |-> rows, pre |-> pre, idx |-> idx]
Nothing == Obj("none", NoData, NoData, <<>>)
Sup(s) == s.rows.y # <<>>
N(s) == Len(s.rows.x)

\* weights argument: "none", "scalar" (W = <<v>>), "vector"
Broadcast(wkind, W, n) == CASE wkind = "none" -> Const(n, 1) [] wkind = "scalar" -> Const(n, W[1]) [] OTHER -> W
GoodWeights(wkind, W, n) == wkind = "vector" => Len(W) = n
\* features given as a matrix, as a vector (n points of one dimension) or as a number
Columns(form, X) == X
TakeRows(s, sel) == [i \in 1..Len(sel) |-> s[sel[i]]]
Sel(d, sel) == [x |-> TakeRows(d.x, sel), y |-> IF d.y = <<>> THEN <<>> ELSE TakeRows(d.y, sel), w |-> TakeRows(d.w, sel), wd |-> d.wd]
Zeros(v) == [i \in 1..Len(v) |-> 0]
PadRows(s, k) == IF s = <<>> THEN <<>> ELSE s \o [i \in 1..k |-> Zeros(s[1])]
Padded(d, k) == [x |-> PadRows(d.x, k), y |-> PadRows(d.y, k), w |-> d.w \o Const(k, 0), wd |-> d.wd]
Neg(w) == [i \in 1..Len(w) |-> -w[i]]
Normal(d) == IF Tot(d.w) < 0 THEN [d EXCEPT !.w = Neg(d.w), !.wd = -Tot(d.w)] ELSE IF Tot(d.w) = 0 THEN [d EXCEPT !.w = Const(Len(d.w), 0), !.wd = 1] ELSE [d EXCEPT !.wd = Tot(d.w)]
Unweighted(d) == [d EXCEPT !.w = Const(Len(d.w), 1), !.wd = 1]

\* is operation o accepted in state s?
Accepts(s, o) ==
  CASE o.op = "new" -> /\ GoodWeights(o.wkind, o.W, Len(o.X)) /\ (o.Y # <<>> => Len(o.Y) = Len(o.X))
    [] o.op = "subset" -> /\ o.via # "raw-nodes" /\ o.via # "raw-data" /\ Len(o.sel) <= N(s) /\ GoodWeights(o.wkind, o.W, Len(o.sel))
    [] o.op = "pseudo" -> /\ o.via # "raw-nodes" /\ o.via # "raw-data" /\ Len(o.X) <= N(s) /\ GoodWeights(o.wkind, o.W, Len(o.X))
    [] o.op = "pad" -> o.k >= 0
    [] OTHER -> TRUE
\* the object after an accepted operation
Apply(s, o) ==
  CASE o.op = "new" -> Obj("data", [DataSet(o.X, o.Y, Broadcast(o.wkind, o.W, Len(o.X))) EXCEPT !.wd = o.div], NoData, <<>>)
    [] o.op = "take" -> Obj("data", Sel(s.rows, o.sel), NoData, <<>>)
    [] o.op = "pad" -> Obj("data", Padded(s.rows, o.k), NoData, <<>>)
    [] o.op \in {"norm", "normz"} -> Obj("data", Normal(s.rows), NoData, <<>>)
    [] o.op \in {"jit", "asdata"} -> s
    [] o.op = "subset" ->
         LET base == IF o.via = "array" THEN Unweighted(s.rows) ELSE s.rows IN
           Obj("subset", [Sel(base, o.sel) EXCEPT !.w = Broadcast(o.wkind, o.W, Len(o.sel)), !.wd = 1], base, o.sel)
    [] o.op = "pseudo" ->
         Obj("pseudo", DataSet(o.X, <<>>, Broadcast(o.wkind, o.W, Len(o.X))), IF o.via = "array" THEN Unweighted(s.rows) ELSE s.rows, <<>>)
    [] o.op = "points" -> Obj("data", s.rows, NoData, <<>>)
    [] o.op = "pre" -> Obj("data", s.pre, NoData, <<>>)
    [] o.op = "solve" -> [s EXCEPT !.rows = [s.rows EXCEPT !.w = o.W, !.wd = 1]]
=================================================================================
