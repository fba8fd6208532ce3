CONSTANTS Ent = {0, 3} Epochs = 2 Lim = 60
SPECIFICATION Spec
INVARIANTS GradientOfObjective AnalyticIsAverage OrderFree TrueScoreStationary StepsCounted
CHECK_DEADLOCK FALSE
