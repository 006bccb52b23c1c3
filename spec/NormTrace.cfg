SPECIFICATION TraceSpec
INVARIANT Wellformed
CHECK_DEADLOCK FALSE
