SPECIFICATION Spec
INVARIANT Prefix
PROPERTIES Latest Complete Kept InTheEnd
CHECK_DEADLOCK FALSE
CONSTANTS
  Clients = {1, 2}
  Records = 4
  Faults = 4
  EndsReading = TRUE
  Depth = 0
  Out = FALSE
