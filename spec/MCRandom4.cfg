SPECIFICATION Spec
INVARIANTS Repro Schedules
CONSTANTS NMax = 4
CHECK_DEADLOCK FALSE
