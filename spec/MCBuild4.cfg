SPECIFICATION Spec
INVARIANTS Covered NoSpare Feasible Schedules
CONSTANTS NStep = 4
 Caps = {8, 12, 20, 28}
 Costs = {0, 8, 16, 24}
CHECK_DEADLOCK FALSE
