INIT Init
NEXT Next
CONSTANTS Depth = 1
 MaxRecords = 7
 Out = FALSE
INVARIANT Required
CHECK_DEADLOCK FALSE
