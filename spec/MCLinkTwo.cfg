INIT Init
NEXT Next
CONSTANTS Depth = 3
 Out = FALSE
 Whos = {1, 2}
INVARIANTS AtMostOne Effects Independent
CHECK_DEADLOCK FALSE
