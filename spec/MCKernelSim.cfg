SPECIFICATION MCSpec
CONSTANTS Dur = 3
 MaxActs = 5
 MaxAgents = 6
INVARIANTS Inv EveryStepOnce OrdersExecuted LifetimeRespected Emit
CHECK_DEADLOCK FALSE
