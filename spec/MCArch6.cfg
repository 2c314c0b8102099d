SPECIFICATION Spec
INVARIANT Schedules
PROPERTY Exact
CONSTANTS NMax = 6
CHECK_DEADLOCK FALSE
