SPECIFICATION Spec
INVARIANTS Whole Additive Kept MostThereIs Absent Balance Schedules
CONSTANTS NMax = 4
CHECK_DEADLOCK FALSE
