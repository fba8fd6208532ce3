CONSTANTS Lim = 2
SPECIFICATION Spec
INVARIANTS IsLogDerivative Shifted Reversed Repeated InRange SteinOK
CHECK_DEADLOCK FALSE
