SPECIFICATION Spec
CONSTANTS
  Sizes = {2, 3}
  Branches = {1, 2}
VIEW MapView
INVARIANTS ValuesArePermutations KnownInRange HandlesDistinct IdentityFirst
PROPERTIES SetNeverOverwrites ReplaceOnlyOne
CHECK_DEADLOCK FALSE
