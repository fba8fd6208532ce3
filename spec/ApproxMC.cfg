CONSTANTS N = 3 Ent = {0, 1} Diag = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Orthogonal Interpolates ExactWhenSpanning AnchorsDistinct
CHECK_DEADLOCK FALSE
