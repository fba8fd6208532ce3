SPECIFICATION Spec
CONSTANTS N = 3
  KVals = {0, 1, 2}
  DVals = {2, 3}
  WVals = {0, 1}
  MaxM = 2
  MaxStart = 2
INVARIANTS ITypeOK INoRepeats IOnlyWeighted ICanProceed Finishes
PROPERTY NeverWorse
CHECK_DEADLOCK FALSE
