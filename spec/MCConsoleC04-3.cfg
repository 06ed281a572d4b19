INIT Init
NEXT Next
CONSTANTS Depth = 3
 Out = TRUE
 Kinds = {"read","write"}
INVARIANTS WriteOk ReadOk OneByte
CHECK_DEADLOCK FALSE
