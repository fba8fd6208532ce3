CONSTANTS N = 4 PhiMax = 3 WMax = 2 Mixed = TRUE
SPECIFICATION Spec
INVARIANTS NonNegative MassKept MomentKept Inside FewPoints
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
