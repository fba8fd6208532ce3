CONSTANTS Depth = 3 By = "shape" Emit = FALSE Few = TRUE
SPECIFICATION Spec
INVARIANTS Pure Discriminates Equal
CHECK_DEADLOCK FALSE
