SPECIFICATION Spec
INVARIANT Schedules
PROPERTY Exact
CONSTANTS NMax = 5
CHECK_DEADLOCK FALSE
