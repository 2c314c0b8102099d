SPECIFICATION MCSpec
CONSTANTS Dur = 2
 MaxActs = 2
 MaxAgents = 4
VIEW View
INVARIANTS Inv EveryStepOnce OrdersExecuted KillEnds LifetimeRespected
CHECK_DEADLOCK FALSE
