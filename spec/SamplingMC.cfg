SPECIFICATION Spec
CONSTANTS N = 4
  WVals = {0, 1, 2, 3}
  M = 3
INVARIANTS CanDraw NoRepeats NeverZero Probability PairForm
CHECK_DEADLOCK FALSE
