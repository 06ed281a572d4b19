INIT Init
NEXT Next
CONSTANTS Depth = 2
 Out = FALSE
INVARIANTS Once All First Accepts Rejects
CHECK_DEADLOCK FALSE
