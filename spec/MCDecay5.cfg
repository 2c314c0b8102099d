SPECIFICATION Spec
INVARIANTS OnlyTime Kept ReadIsNow NotAhead Schedules
CONSTANTS NMax = 5
CHECK_DEADLOCK FALSE
