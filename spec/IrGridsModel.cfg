SPECIFICATION Spec
CONSTANTS
  M = 1
INVARIANTS Contraction ProperAgree AxialOfCovectors Tensors Undone Repeated Phases
CHECK_DEADLOCK FALSE
