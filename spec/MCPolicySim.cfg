SPECIFICATION Spec
INVARIANTS Within InLevel Rate Cycle Quiet Reorder Whole Schedules
CONSTANTS TMax = 7
CHECK_DEADLOCK FALSE
