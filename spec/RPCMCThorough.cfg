SPECIFICATION Spec
CONSTANTS N = 4
  Vals = {0, 1}
  M = 4
INVARIANTS NonNegative NoRepeats CanProceed RankTwo Independent
CHECK_DEADLOCK FALSE
