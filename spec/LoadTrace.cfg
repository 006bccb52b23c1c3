SPECIFICATION TraceSpec
CONSTANT FirstTranche = 10000
INVARIANT Bounded
CHECK_DEADLOCK FALSE
