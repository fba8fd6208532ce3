CONSTANTS Ent = {0, 1, 2} Lam = {2, 4} Grid = {0, 1, 2, 3, 6, 9}
SPECIFICATION Spec
INVARIANTS Unique PaddingPads SignFree Invertible
CHECK_DEADLOCK FALSE
