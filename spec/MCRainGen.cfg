INIT Init
NEXT GenNext
CONSTANTS Depth = 4
 Batch = 2
 Out = TRUE
 GapSteps = {60, 180, 181}
 Kinds = {"rain", "dry"}
CHECK_DEADLOCK FALSE
