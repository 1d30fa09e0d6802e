SPECIFICATION TSpec
CONSTANTS
  NP = 0
  Verts = {}
  Workers = 1
  NodeIds = {}
  MaxPerNode = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
