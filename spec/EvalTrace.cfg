SPECIFICATION TraceSpec
VIEW TraceView
INVARIANT WithinLimit
CHECK_DEADLOCK FALSE
