INIT Init
NEXT GenNext
CONSTANTS Depth = 2
 Out = TRUE
CHECK_DEADLOCK FALSE
