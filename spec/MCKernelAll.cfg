SPECIFICATION MCSpec
CONSTANTS Dur = 2
 MaxActs = 2
 MaxAgents = 5
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
