SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxPref = 2
INVARIANTS OneToOne NeverExhausted DoneIsStable
CHECK_DEADLOCK FALSE
