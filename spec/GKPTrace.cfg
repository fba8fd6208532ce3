SPECIFICATION TSpec
INVARIANT InvNoRepeats
CHECK_DEADLOCK FALSE
