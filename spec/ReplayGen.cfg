CONSTANTS Depth = 18 By = "none" Emit = TRUE Few = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
