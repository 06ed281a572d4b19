INIT Init
NEXT Next
CONSTANTS Depth = 2
 Out = TRUE
 Whos = {1, 2}
INVARIANTS AtMostOne Effects Independent
CHECK_DEADLOCK FALSE
