CONSTANTS
  Items = 4
  NThreads = 3
SPECIFICATION Spec
VIEW View
INVARIANTS Once Same
CHECK_DEADLOCK FALSE
