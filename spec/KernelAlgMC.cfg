CONSTANTS Depth = 3 MaxDeg = 4 Emit = FALSE Leaves = "few"
SPECIFICATION Spec
INVARIANTS RulesAgree Symmetric DiagonalOK GramOK
CHECK_DEADLOCK FALSE
