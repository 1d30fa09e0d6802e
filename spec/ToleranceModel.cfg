SPECIFICATION Spec
CONSTANTS
  Max = 20
  MaxM = 2
  MaxK = 4
INVARIANTS OneRule Lists
CHECK_DEADLOCK FALSE
