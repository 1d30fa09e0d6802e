CONSTANTS
  Largest = 2
  Weight = 1
SPECIFICATION Spec
INVARIANTS Permutations_ Optimal Conserved BothWays
CHECK_DEADLOCK FALSE
