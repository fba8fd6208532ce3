------------------------------- MODULE BlockMean -------------------------------
(* Block accumulation of the weighted mean of a kernel matrix, as a process.       *)
(* The data are padded with zero-weighted rows to whole blocks; one action per      *)
(* block of y inside a block of x.  At the end the accumulated sum and the column   *)
(* sums must equal the plain double sums, whatever the block sizes.                 *)
EXTENDS Integers, Sequences
CONSTANTS MaxN, MaxM, KVals, WVals, MaxB
VARIABLES n, m, K, wx, wy, bx, by, i, j, acc, col
vars == <<n, m, K, wx, wy, bx, by, i, j, acc, col>>
Min(a, b) == IF a < b THEN a ELSE b
Ceil(a, b) == (a + b - 1) \div b
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Junk == 7                                    \* kernel value at padding rows: must not matter
Kp(a, b) == IF a <= n /\ b <= m THEN K[a][b] ELSE Junk
Wx(a) == IF a <= n THEN wx[a] ELSE 0
Wy(b) == IF b <= m THEN wy[b] ELSE 0
Bx == Min(bx, n)
By == Min(by, m)
Init ==
  /\ n \in 1..MaxN /\ m \in 1..MaxM
  /\ K \in [1..n -> [1..m -> KVals]]
  /\ wx \in [1..n -> WVals] /\ wy \in [1..m -> WVals]
  /\ bx \in 1..MaxB /\ by \in 1..MaxB
  /\ i = 0 /\ j = 0 /\ acc = 0
  /\ col = [a \in 1..(Ceil(n, Min(bx, n)) * Min(bx, n)) |-> 0]
Slice ==
  /\ i < Ceil(n, Bx)
  /\ j < Ceil(m, By)
  /\ LET part(a) == Sum([t \in 1..By |-> Kp(a, j * By + t) * Wy(j * By + t)], By) IN
     /\ col' = [a \in DOMAIN col |-> IF a > i * Bx /\ a <= (i + 1) * Bx THEN col[a] + part(a) ELSE col[a]]
     /\ acc' = acc + Sum([t \in 1..Bx |-> Wx(i * Bx + t) * part(i * Bx + t)], Bx)
  /\ IF j + 1 = Ceil(m, By) THEN i' = i + 1 /\ j' = 0 ELSE i' = i /\ j' = j + 1
  /\ UNCHANGED <<n, m, K, wx, wy, bx, by>>
Spec == Init /\ [][Slice]_vars
Finished == i = Ceil(n, Bx)
ColSum(a) == Sum([b \in 1..m |-> K[a][b] * wy[b]], m)
Correct == Finished => /\ acc = Sum([a \in 1..n |-> wx[a] * ColSum(a)], n)
                       /\ \A a \in 1..n : col[a] = ColSum(a)
================================================================================
