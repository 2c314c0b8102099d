SPECIFICATION Spec
CONSTANTS
 MaxOps = 3
 Emit = TRUE
INVARIANT Only
INVARIANT Recorded
INVARIANT InOrder
INVARIANT There
INVARIANT DatabaseUntouched
CHECK_DEADLOCK FALSE
