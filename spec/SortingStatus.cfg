SPECIFICATION Spec
CONSTANTS
  MaxVisits = 268435455
  VisitArgs = {0, 1, 2, 5, 268435454, 268435455, 268435456}
CONSTRAINT Near
INVARIANT TypeOK
PROPERTIES FlagsIndependent CountKeepsFlags LimitOnlyLocks OverflowKeeps LockedRefuses
CHECK_DEADLOCK FALSE
