INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 2
  Faults = 0
  RollBack = TRUE
  Sessions = {1}
  Out = TRUE
