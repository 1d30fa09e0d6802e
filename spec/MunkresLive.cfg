SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxCost = 1
INVARIANTS StarsIndependent ReducedNonNegative StarsAreZeros DoneIsOptimal
PROPERTY Terminates
CHECK_DEADLOCK FALSE
