-------------------------------- MODULE RPCCore --------------------------------
(* Randomly pivoted Cholesky.  The residual of the Gram matrix K after projecting   *)
(* out the pivots S has diagonal  det K[S + x] / det K[S]  (exact, integer K).      *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
Total(s) == SumTo(s, Len(s))
DropAt(s, j) == [i \in 1..(Len(s) - 1) |-> IF i < j THEN s[i] ELSE s[i + 1]]
Minor(A, j) == [i \in 1..(Len(A) - 1) |-> DropAt(A[i + 1], j)]
RECURSIVE Det(_)
Det(A) == IF Len(A) = 0 THEN 1
          ELSE IF Len(A) = 1 THEN A[1][1]
          ELSE Total([j \in 1..Len(A) |->
                 IF A[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, j))])
Sub(K, s) == [i \in 1..Len(s) |-> [j \in 1..Len(s) |-> K[s[i]][s[j]]]]
Vol(K, s) == Det(Sub(K, s))
In(x, s) == \E i \in 1..Len(s) : s[i] = x
\* numerator of the residual diagonal; its denominator Vol(K, s) is common to all x
Residual(K, s, x) == IF In(x, s) THEN 0 ELSE Vol(K, Append(s, x))
Explained(K, n, s) == \A x \in 1..n : Residual(K, s, x) = 0
\* the pivots actually independent: those drawn before everything was explained
RECURSIVE Core(_, _, _)
Core(K, n, s) == IF Len(s) = 0 THEN <<>>
                 ELSE LET p == Core(K, n, SubSeq(s, 1, Len(s) - 1)) IN
                      IF Len(p) = Len(s) - 1 /\ ~Explained(K, n, p) THEN Append(p, s[Len(s)]) ELSE p
\* weights of the next draw after pivots s
Draw(K, n, s) ==
  LET p == Core(K, n, s) IN
    IF Explained(K, n, p) THEN [x \in 1..n |-> IF In(x, s) THEN 0 ELSE 1]
    ELSE [x \in 1..n |-> Residual(K, p, x)]
================================================================================
