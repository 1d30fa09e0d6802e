CONSTANTS
  Side = 1
  Depth = 2
SPECIFICATION Spec
INVARIANTS TypeOK Halves Commute HullAgrees
CHECK_DEADLOCK FALSE
