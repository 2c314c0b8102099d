SPECIFICATION Spec
VIEW NoTrace
INVARIANTS Within InLevel Rate Cycle Quiet Reorder Whole
CONSTANTS TMax = 6
CHECK_DEADLOCK FALSE
