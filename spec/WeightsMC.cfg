CONSTANTS M = 3 D = 3 DiagVals = {2, 3} OffVals = {0, 1} ZVals = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS InSimplex GapBounds Optimal
PROPERTY Descends
CHECK_DEADLOCK FALSE
