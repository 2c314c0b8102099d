SPECIFICATION TraceSpec
INVARIANT Accepted
  ModelInvariant
CHECK_DEADLOCK FALSE
