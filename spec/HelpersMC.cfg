CONSTANTS Lim = 3 Size = 4
SPECIFICATION Spec
INVARIANTS MedianOK DistOK ThresholdOK RepeatOK
CHECK_DEADLOCK FALSE
