SPECIFICATION Spec
CONSTANTS MaxN = 4
  MaxM = 5
INVARIANTS Size InRange Distinct RefusedOnlyInfeasible
PROPERTY EveryRequestEnds
CHECK_DEADLOCK FALSE
