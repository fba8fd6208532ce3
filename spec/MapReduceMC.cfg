SPECIFICATION Spec
CONSTANTS MaxN = 150
  MaxM = 5
  MaxLeaf = 16
INVARIANTS PartitionsFit EqualUpToOne FinalFeasible ExactSize
PROPERTIES Shrinks Stops
CHECK_DEADLOCK FALSE
