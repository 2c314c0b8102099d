SPECIFICATION Spec
INVARIANTS RestartExact Sane Schedules
CONSTANTS
  TMax = 3
  Acts = 2
  MaxId = 5
CHECK_DEADLOCK FALSE
