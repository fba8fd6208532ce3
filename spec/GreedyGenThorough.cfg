SPECIFICATION Spec
CONSTANTS N = 3
  KVals = {0, 1, 2}
  DVals = {2, 3}
  WVals = {0, 1, 2}
  Ms = {1, 2}
  StartLens = {0, 1, 2}
CHECK_DEADLOCK FALSE
