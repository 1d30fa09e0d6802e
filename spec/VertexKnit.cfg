SPECIFICATION Spec
CONSTANTS
  NP = 2
  Verts = {0, 1, 2, 3}
  Workers = 3
  NodeIds = {1, 2, 3}
  MaxPerNode = 2
INVARIANTS RegistriesClean MeaningKept DoneComplete
CHECK_DEADLOCK FALSE
