INIT Init
NEXT Next
VIEW View
CONSTANTS Depth = 6
 Batch = 2
 Out = FALSE
 GapSteps = {60, 180, 181}
 Kinds = {"rain", "pour", "dry", "null"}
INVARIANTS Right Partition OnePass
PROPERTY Kept
CHECK_DEADLOCK FALSE
