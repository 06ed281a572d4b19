INIT Init
NEXT GenNext
CONSTANTS Depth = 5
 Batch = 2
 Out = TRUE
 GapSteps = {60, 180, 181}
 Kinds = {"rain", "pour", "dry"}
CHECK_DEADLOCK FALSE
