CONSTANTS Depth = 3 Emit = FALSE
SPECIFICATION Spec
INVARIANTS BaseKept StaysStein LastWins ElseFirst
CHECK_DEADLOCK FALSE
