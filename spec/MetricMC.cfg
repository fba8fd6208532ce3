CONSTANTS
 Xs = {0, 1, 2}
 Ws = {0, 1, 2}
 MaxN = 2
SPECIFICATION Spec
INVARIANTS Unchanged NonNegative Symmetric ZeroOnSame
CHECK_DEADLOCK FALSE
