SPECIFICATION Spec
INVARIANTS OneRow Whole
PROPERTIES Kept Again InTheEnd
CHECK_DEADLOCK FALSE
CONSTANTS
  Clients = {1, 2}
  Files = {1, 2}
  Length = 2
  Shared = TRUE
  Crashes = 2
  Depth = 0
  Out = FALSE
