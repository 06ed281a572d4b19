INIT Init
NEXT Next
CONSTANTS Depth = 5
 Out = FALSE
INVARIANTS Local Effect Copied NoCycles
CHECK_DEADLOCK FALSE
