SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
 Emit = TRUE
INVARIANT Once
INVARIANT PerRecorderOrder
INVARIANT NotLost
INVARIANT NothingInvented
INVARIANT BatchBound
INVARIANT FlushedIsEmpty
CHECK_DEADLOCK FALSE
