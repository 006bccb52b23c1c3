SPECIFICATION TraceSpec
INVARIANT InRange
CHECK_DEADLOCK FALSE
