SPECIFICATION Spec
INVARIANTS Means Declare
CHECK_DEADLOCK FALSE
