SPECIFICATION TraceSpec
INVARIANTS Gauge TotalRight NothingInvented Complete OnlyAsked Clean
CHECK_DEADLOCK FALSE
VIEW TraceView
