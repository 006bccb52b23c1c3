SPECIFICATION TraceSpec
INVARIANTS Sorted WithinCount
CHECK_DEADLOCK FALSE
