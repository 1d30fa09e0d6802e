SPECIFICATION TSpec
CONSTANTS
  MaxVisits = 268435455
  VisitArgs = {}
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
