CONSTANTS Depth = 7 MaxN = 4 Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
