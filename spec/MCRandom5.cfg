SPECIFICATION Spec
INVARIANTS Repro Schedules
CONSTANTS NMax = 5
CHECK_DEADLOCK FALSE
