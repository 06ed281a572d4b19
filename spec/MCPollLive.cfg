SPECIFICATION LiveSpec
CONSTANTS Depth = 4
 MaxN = 2
 MaxPackets = 2
 Callers = {1}
 Out = FALSE
PROPERTIES EventuallyEnds
CHECK_DEADLOCK FALSE
