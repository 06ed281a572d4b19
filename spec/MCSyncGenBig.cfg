INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Clients = {1, 2}
  Records = 3
  Faults = 1
  EndsReading = TRUE
  Depth = 8
  Out = TRUE
