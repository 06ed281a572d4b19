INIT Init
NEXT Next
CONSTANTS Depth = 2
 Out = TRUE
 Kinds = {"read","bit","rain"}
INVARIANTS WriteOk ReadOk OneByte
CHECK_DEADLOCK FALSE
