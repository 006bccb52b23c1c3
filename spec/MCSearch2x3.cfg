SPECIFICATION Spec
CONSTANTS
  NWords = 2
  Depth = 3
  Tranches = {0, 1}
  Limits = {99}
  AllQueues = FALSE
  AllTrees = FALSE
INVARIANTS Refines TypeOk
PROPERTY Completes
CHECK_DEADLOCK FALSE
