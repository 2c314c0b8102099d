SPECIFICATION Spec
INVARIANTS Covered NoSpare Feasible Schedules
CONSTANTS NStep = 3
 Caps = {8, 12, 20}
 Costs = {8, 16, 24}
CHECK_DEADLOCK FALSE
