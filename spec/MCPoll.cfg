SPECIFICATION Spec
CONSTANTS Depth = 6
 MaxN = 2
 MaxPackets = 3
 Callers = {1}
 Out = FALSE
INVARIANTS InOrder NotTooMany OneMoreAtMost OneReturn NotCancelledWhenComplete OneClaim
PROPERTIES Refusals
CHECK_DEADLOCK FALSE
