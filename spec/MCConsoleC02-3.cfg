INIT Init
NEXT Next
CONSTANTS Depth = 3
 Out = TRUE
 Kinds = {"read","bit","write","poll","background"}
INVARIANTS WriteOk ReadOk OneByte
CHECK_DEADLOCK FALSE
