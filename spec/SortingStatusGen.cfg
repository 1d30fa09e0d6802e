INIT GenInit
NEXT GenNext
CONSTANTS
  MaxVisits = 268435455
  VisitArgs = {0, 1, 2, 268435454, 268435455, 268435456}
VIEW GenView
CONSTRAINT GenConstraint
INVARIANT Emit
CHECK_DEADLOCK FALSE
