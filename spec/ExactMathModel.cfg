SPECIFICATION Spec
CONSTANTS
  Lo = 1
  Hi = 2
INVARIANT Laws
CHECK_DEADLOCK FALSE
