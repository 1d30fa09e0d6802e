SPECIFICATION Spec
CONSTANTS
  System = 4
  Depth = 4
VIEW View0
INVARIANTS One Basis
CHECK_DEADLOCK FALSE
