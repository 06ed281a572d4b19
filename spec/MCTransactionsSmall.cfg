INIT Init
NEXT Next
VIEW View0
INVARIANTS NothingHalf NothingLeft Exact Opened Repeatable
PROPERTY Grows
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 4
  Faults = 2
  RollBack = TRUE
  Sessions = {1, 2}
  Out = FALSE
