INIT Init
NEXT Next
CONSTANTS Depth = 1
 MaxRecords = 3
 Out = TRUE
INVARIANT Required
CHECK_DEADLOCK FALSE
