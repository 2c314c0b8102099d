SPECIFICATION Spec
INVARIANTS Keeps Docs
PROPERTY Stable
CONSTANTS Wide = 2
CHECK_DEADLOCK FALSE
