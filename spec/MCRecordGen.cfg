INIT Init
NEXT Next
CONSTANTS Depth = 3
 Out = TRUE
INVARIANTS Local Effect Copied NoCycles
CHECK_DEADLOCK FALSE
