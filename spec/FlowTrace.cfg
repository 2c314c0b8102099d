SPECIFICATION TraceSpec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
