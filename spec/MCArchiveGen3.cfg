INIT Init
NEXT GenNext
CONSTANTS Depth = 3
 Out = TRUE
CHECK_DEADLOCK FALSE
