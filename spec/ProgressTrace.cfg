SPECIFICATION TraceSpec
INVARIANTS Percentage
CHECK_DEADLOCK FALSE
