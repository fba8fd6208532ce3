SPECIFICATION Spec
CONSTANTS MaxN = 2
  MaxM = 3
  KVals = {0, 1}
  WVals = {0, 1, 2}
  MaxB = 3
INVARIANT Correct
CHECK_DEADLOCK FALSE
