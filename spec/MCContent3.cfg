SPECIFICATION Spec
INVARIANTS Whole Additive Kept MostThereIs Absent Balance Schedules
CONSTANTS NMax = 3
CHECK_DEADLOCK FALSE
