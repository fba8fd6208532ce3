CONSTANTS Depth = 3 MaxN = 2 Emit = FALSE
SPECIFICATION Spec
INVARIANTS RowsAligned RowsGenuine CoresetSmall SubsetOfData
PROPERTY NormSums
CHECK_DEADLOCK FALSE
