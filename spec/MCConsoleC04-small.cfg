INIT Init
NEXT Next
CONSTANTS Depth = 2
 Out = FALSE
 Kinds = {"read","write"}
INVARIANTS WriteOk ReadOk OneByte
CHECK_DEADLOCK FALSE
