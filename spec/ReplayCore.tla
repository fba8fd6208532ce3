------------------------------ MODULE ReplayCore ------------------------------
(* What a call's result may depend on: the operation, the data it is given and, for *)
(* the random operations, the key.  Nothing else: not the calls made before, not    *)
(* whether it was compiled, not whether an earlier state was passed back.           *)
EXTENDS Integers, Sequences, FiniteSets
Groups == <<
  <<"herd", "herd:refine", "herdwide", "metric:mmd", "weights:sbq">>,
  <<"herdrepeat", "herdwide:refine", "herdwide", "metric:mmdwide", "metric:mmd">>,
  <<"gkp", "gkp:refine", "gkpwide", "random">>,
  <<"gkpbatch", "gkpbatch:refine", "gkp", "rpc">>,
  <<"stein", "stein:refine", "steinmatch", "metric:ksd">>,
  <<"kt", "cpp", "weights:mmd", "weights:core">>,
  <<"mr", "mrrandom", "car", "tree", "randomw">>,
  <<"prob", "iter", "herdapprox", "metric:core", "rpc">> >>
RandomOps == {"prob", "iter", "herdapprox", "random", "randomw", "rpc", "gkpbatch", "gkpbatch:refine", "kt", "cpp", "mrrandom"}
\* operations that return and accept a cached state
Base(op) == CASE op = "herd:refine" -> "herd" [] op = "herdwide:refine" -> "herdwide" [] op = "gkp:refine" -> "gkp"
              [] op = "gkpbatch:refine" -> "gkpbatch" [] OTHER -> op
Cached == {"herd", "herdwide", "herdrepeat", "herdapprox", "prob", "gkp", "gkpwide", "gkpbatch"}
Datas == {"A", "B", "C", "W"}
Keys == {1, 2}
Sig(c) == <<c.op, c.data, IF c.op \in RandomOps THEN c.key ELSE 0>>
================================================================================
