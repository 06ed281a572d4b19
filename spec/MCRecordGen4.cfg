INIT Init
NEXT Next
CONSTANTS Depth = 4
 Out = TRUE
INVARIANTS Local Effect Copied NoCycles
CHECK_DEADLOCK FALSE
