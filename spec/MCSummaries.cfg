INIT Init
NEXT Next
VIEW View
CONSTANTS Depth = 4
 MostRecords = 3
 Out = FALSE
INVARIANTS Exact ExactOnceFresh TimesWithin Demanded Idempotent AnyOrder
PROPERTY Others
CHECK_DEADLOCK FALSE
