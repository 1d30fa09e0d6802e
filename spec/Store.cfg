CONSTANTS
 NSlots = 2
 NEntries = 2
 NKinds = 2
 NOps = 1
 Most = 3
 Long = 5
SPECIFICATION Spec
VIEW View
INVARIANT Sound
PROPERTY Apart
CHECK_DEADLOCK FALSE
