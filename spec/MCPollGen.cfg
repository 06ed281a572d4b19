INIT Init
NEXT GenNext
CONSTANTS Depth = 5
 MaxN = 3
 MaxPackets = 9
 Callers = {1}
 Out = TRUE
CHECK_DEADLOCK FALSE
