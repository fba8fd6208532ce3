SPECIFICATION TSpec
INVARIANTS InvNoRepeats InvOnlyWeighted
CHECK_DEADLOCK FALSE
