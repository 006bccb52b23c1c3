SPECIFICATION Spec
CONSTANTS
  NWords = 2
  Depth = 2
  Tranches = {0, 1, 3}
  Limits = {0, 1, 2, 99}
  AllQueues = TRUE
  AllTrees = TRUE
INVARIANTS Refines TypeOk
PROPERTY Completes
CHECK_DEADLOCK FALSE
