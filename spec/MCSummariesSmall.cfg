INIT Init
NEXT Next
VIEW View
CONSTANTS Depth = 3
 MostRecords = 2
 Out = FALSE
INVARIANTS Exact ExactOnceFresh TimesWithin Demanded Idempotent AnyOrder
PROPERTY Others
CHECK_DEADLOCK FALSE
