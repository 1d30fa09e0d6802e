CONSTANTS
 NSlots = 3
 NEntries = 3
 NKinds = 3
 NOps = 4
 Most = 6
 Long = 20
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
