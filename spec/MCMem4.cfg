SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
 Emit = TRUE
INVARIANT Only
INVARIANT Recorded
INVARIANT InOrder
INVARIANT There
INVARIANT DatabaseUntouched
CHECK_DEADLOCK FALSE
