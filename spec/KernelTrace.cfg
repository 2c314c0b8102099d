SPECIFICATION TraceSpec
INVARIANT Accepted
INVARIANT KernelInvariant
CHECK_DEADLOCK FALSE
