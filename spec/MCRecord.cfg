INIT Init
NEXT Next
CONSTANTS Depth = 4
 Out = FALSE
INVARIANTS Local Effect Copied NoCycles
CHECK_DEADLOCK FALSE
