SPECIFICATION Spec
CONSTANTS N = 3
  Vals = {0, 1, 2}
  M = 3
INVARIANTS NonNegative NoRepeats CanProceed RankTwo Independent
CHECK_DEADLOCK FALSE
