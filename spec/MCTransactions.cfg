INIT Init
NEXT Next
VIEW View0
INVARIANTS NothingHalf NothingLeft Exact Opened Repeatable
PROPERTY Grows
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 5
  Faults = 3
  RollBack = TRUE
  Sessions = {1, 2}
  Out = FALSE
