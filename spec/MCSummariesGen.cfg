INIT Init
NEXT GenNext
CONSTANTS Depth = 2
 MostRecords = 3
 Out = TRUE
CHECK_DEADLOCK FALSE
