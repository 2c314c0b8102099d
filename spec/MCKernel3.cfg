SPECIFICATION MCSpec
CONSTANTS Dur = 3
 MaxActs = 3
 MaxAgents = 5
VIEW View
INVARIANTS Inv EveryStepOnce OrdersExecuted KillEnds LifetimeRespected
CHECK_DEADLOCK FALSE
