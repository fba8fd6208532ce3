CONSTANTS Depth = 6 MaxDeg = 4 Emit = TRUE Leaves = "many"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
