SPECIFICATION MCSpec
CONSTANTS Dur = 2
 MaxActs = 1
 MaxAgents = 4

PROPERTY Terminates
CHECK_DEADLOCK FALSE
