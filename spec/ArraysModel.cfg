SPECIFICATION Spec
CONSTANTS
  Handles = {1, 2, 3}
  MaxCells = 6
  MaxSteps = 4
INVARIANT Sound
PROPERTIES Isolated Detached
CHECK_DEADLOCK FALSE
