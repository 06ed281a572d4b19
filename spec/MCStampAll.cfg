INIT DayInit
NEXT DayNext
INVARIANTS DayRoundTripAll DayOrder DayMinutes
CHECK_DEADLOCK FALSE
