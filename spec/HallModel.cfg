SPECIFICATION Spec
CONSTANTS
  Wide = FALSE
INVARIANTS Read1 Grouped
CHECK_DEADLOCK FALSE
