INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Clients = {1, 2}
  Files = {1, 2}
  Length = 3
  Shared = TRUE
  Crashes = 1
  Depth = 6
  Out = TRUE
