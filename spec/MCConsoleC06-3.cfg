INIT Init
NEXT Next
CONSTANTS Depth = 3
 Out = TRUE
 Kinds = {"poll","background","read"}
INVARIANTS WriteOk ReadOk OneByte
CHECK_DEADLOCK FALSE
