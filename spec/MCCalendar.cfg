INIT Init
NEXT Next
CONSTANTS FirstYear = 2000
 LastYear = 2128
INVARIANTS Numbers Known Weeks Sundays
CHECK_DEADLOCK FALSE
