SPECIFICATION Spec
INVARIANTS OneRow Whole
PROPERTIES Kept Again InTheEnd
CHECK_DEADLOCK FALSE
CONSTANTS
  Clients = {1, 2}
  Files = {1, 2, 3}
  Length = 4
  Shared = TRUE
  Crashes = 3
  Depth = 0
  Out = FALSE
