SPECIFICATION Spec
CONSTANTS N = 3
  Feat = {0, 1, 2}
  Resp = {0, 2}
  Lams = {1, 2}
  MaxM = 2
  MaxStart = 2
INVARIANTS INoRepeats ICanProceed
PROPERTY NeverWorse
CHECK_DEADLOCK FALSE
