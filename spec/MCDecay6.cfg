SPECIFICATION Spec
INVARIANTS OnlyTime Kept ReadIsNow NotAhead Schedules
CONSTANTS NMax = 6
CHECK_DEADLOCK FALSE
