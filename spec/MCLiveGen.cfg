INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 3
  Packets = 9
  Out = TRUE
