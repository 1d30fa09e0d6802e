SPECIFICATION TSpec
CONSTANTS
  Sizes = {}
  Branches = {}
INVARIANTS ValuesArePermutations HandlesDistinct
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
