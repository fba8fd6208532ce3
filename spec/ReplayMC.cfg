CONSTANTS Depth = 3 By = "sig" Emit = FALSE Few = TRUE
SPECIFICATION Spec
INVARIANTS Pure Discriminates Equal
CHECK_DEADLOCK FALSE
