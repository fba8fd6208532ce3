CONSTANTS Depth = 3 Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
