INIT Init
NEXT Next
CONSTANTS Depth = 3
 Out = FALSE
INVARIANTS Incremental AroundNorth Single SomeAverage
CHECK_DEADLOCK FALSE
