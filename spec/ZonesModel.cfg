SPECIFICATION Spec
CONSTANTS
  M = 4
INVARIANTS Lattice Reduced Irreducible
CHECK_DEADLOCK FALSE
