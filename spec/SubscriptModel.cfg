SPECIFICATION Spec
CONSTANTS
  MaxDim = 3
  MaxSize = 2
INVARIANT Ordered
INVARIANT Complete
INVARIANT Laws
CHECK_DEADLOCK FALSE
