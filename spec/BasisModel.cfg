CONSTANTS
  Orbits = 2
  Group = 1
SPECIFICATION Spec
INVARIANTS Compatible Onto Composes Backwards PutBack
CHECK_DEADLOCK FALSE
