SPECIFICATION Spec
CONSTANTS
  Items = 5
  NWorkers = 3
INVARIANTS NoneInvented NoneLost OneHolder
PROPERTY Told
CHECK_DEADLOCK FALSE
