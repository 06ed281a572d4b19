INIT Init
NEXT Next
CONSTANTS FirstYear = 2015
 LastYear = 2015
INVARIANTS Moments
CHECK_DEADLOCK FALSE
