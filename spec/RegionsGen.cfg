CONSTANTS
  Items = 6
  NThreads = 3
SPECIFICATION Spec
INVARIANTS Once Same Emit
CHECK_DEADLOCK FALSE
