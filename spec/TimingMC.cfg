CONSTANTS NF = 2 Runs = 2 MaxCost = 1
SPECIFICATION Spec
INVARIANTS TableIsCosts FixedCalls VarianceSane UnitSane
CHECK_DEADLOCK FALSE
