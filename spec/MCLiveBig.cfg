SPECIFICATION Spec
INVARIANTS Once Accounted InOrder Extent Whole
PROPERTIES Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 0
  Packets = 7
  Out = FALSE
