------------------------------ MODULE Calendar ------------------------------
(* The Gregorian calendar: days, minutes, weekdays and ISO weeks.             *)
EXTENDS Integers

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30
                  [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)

\* the day n days after <<y, m, d>> and the minute n minutes after midnight of a day, n may be negative
RECURSIVE AddDays(_, _, _, _)
AddDays(y, m, d, n) ==
  IF n = 0 THEN <<y, m, d>>
  ELSE IF n > 0
       THEN IF d + n <= DaysIn(y, m) THEN <<y, m, d + n>>
            ELSE LET r == n - (DaysIn(y, m) - d) - 1 IN
                 IF m = 12 THEN AddDays(y + 1, 1, 1, r) ELSE AddDays(y, m + 1, 1, r)
       ELSE IF d + n >= 1 THEN <<y, m, d + n>>
            ELSE LET r == n + d IN
                 IF m = 1 THEN AddDays(y - 1, 12, 31, r) ELSE AddDays(y, m - 1, DaysIn(y, m - 1), r)
MinuteOf(y, m, d, minutes) ==
  LET day == AddDays(y, m, d, minutes \div 1440) k == minutes % 1440
  IN <<day[1], day[2], day[3], k \div 60, k % 60>>

\* days since 2000-01-01 (a Saturday), and minutes since its midnight
DayNumber(y, m, d) ==
  LET k == y - 2000
      leaps == IF k <= 0 THEN -((-k) \div 4) ELSE (k + 3) \div 4 - (k - 1) \div 100 + (k - 1) \div 400
      Before(i) == CASE i = 1 -> 0 [] i = 2 -> 31 [] i = 3 -> 59 [] i = 4 -> 90 [] i = 5 -> 120 [] i = 6 -> 151
                     [] i = 7 -> 181 [] i = 8 -> 212 [] i = 9 -> 243 [] i = 10 -> 273 [] i = 11 -> 304 [] i = 12 -> 334
  IN 365 * k + leaps + Before(m) + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
MinuteNumber(t) == 1440 * DayNumber(t[1], t[2], t[3]) + 60 * t[4] + t[5]
\* Monday is 0
Weekday(n) == (n + 5) % 7

\* the ISO week of a day number: its Monday, and the year and number of the week
WeekStart(n) == n - Weekday(n)
YearOfDay(n) == CHOOSE y \in (2000 + n \div 366)..(2000 + n \div 365 + 1) : DayNumber(y, 1, 1) <= n /\ n < DayNumber(y + 1, 1, 1)
IsoYear(n) == YearOfDay(WeekStart(n) + 3)
IsoWeek(n) == (WeekStart(n) + 3 - DayNumber(IsoYear(n), 1, 1)) \div 7 + 1

\* the k-th (5: the last) Sunday of a month, as a day number
SundayOf(y, m, k) ==
  IF k = 5 THEN LET last == DayNumber(y, m, DaysIn(y, m)) IN last - ((Weekday(last) + 1) % 7)
  ELSE LET first == DayNumber(y, m, 1) IN first + ((6 - Weekday(first)) % 7) + 7 * (k - 1)
=============================================================================
