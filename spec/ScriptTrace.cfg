SPECIFICATION TraceSpec
INVARIANT Progress
CHECK_DEADLOCK FALSE
