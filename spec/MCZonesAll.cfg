INIT Init
NEXT Next
CONSTANTS FirstYear = 2012
 LastYear = 2037
INVARIANTS Moments
CHECK_DEADLOCK FALSE
