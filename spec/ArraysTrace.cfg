SPECIFICATION TSpec
CONSTANT Handles = {0, 1, 2, 3, 4, 5, 6}
INVARIANT Sound
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
