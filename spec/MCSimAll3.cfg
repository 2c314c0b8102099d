SPECIFICATION Spec
INVARIANTS RestartExact Sane Schedules
CONSTANTS
  TMax = 3
  Acts = 3
  MaxId = 5
CHECK_DEADLOCK FALSE
