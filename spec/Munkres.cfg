SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxCost = 2
INVARIANTS StarsIndependent ReducedNonNegative StarsAreZeros DoneIsOptimal
CHECK_DEADLOCK FALSE
