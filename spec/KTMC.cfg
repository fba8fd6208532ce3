CONSTANTS
 Xs = {0, 1, 2}
 Pairs = 3
 CCs = {140, 400, 900}
SPECIFICATION Spec
INVARIANTS Split Total FirstIsFair Coincident PushBack SigmaGrows
CHECK_DEADLOCK FALSE
