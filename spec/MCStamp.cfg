INIT DayInit
NEXT DayNext
INVARIANTS DayRoundTrip DayOrder DayMinutes
CHECK_DEADLOCK FALSE
