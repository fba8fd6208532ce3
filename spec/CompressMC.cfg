CONSTANTS
 MaxN = 20
 MaxG = 3
SPECIFICATION Spec
INVARIANTS Sizes Disjoint InData Answer
PROPERTY Ends
CHECK_DEADLOCK FALSE
