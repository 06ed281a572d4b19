SPECIFICATION Spec
CONSTANTS Depth = 9
 MaxN = 3
 MaxPackets = 4
 Callers = {1}
 Out = FALSE
INVARIANTS InOrder NotTooMany OneMoreAtMost OneReturn NotCancelledWhenComplete OneClaim
PROPERTIES Refusals
CHECK_DEADLOCK FALSE
