CONSTANTS
  Side = 1
  Depth = 1
SPECIFICATION Spec
INVARIANTS Tiles BoxExact TetExact
CHECK_DEADLOCK FALSE
