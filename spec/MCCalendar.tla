----------------------------- MODULE MCCalendar -----------------------------
(* Calendar and Zones against what defines them, day by day and, around the   *)
(* changes, minute by minute.                                                 *)
EXTENDS Zones, TLC

CONSTANTS FirstYear, LastYear

VARIABLES date, n
vars == <<date, n>>

Init == date = <<FirstYear, 1, 1>> /\ n = DayNumber(FirstYear, 1, 1)
Next == date[1] <= LastYear /\ date' = AddDays(date[1], date[2], date[3], 1) /\ n' = n + 1

Numbers == DayNumber(date[1], date[2], date[3]) = n /\ YearOfDay(n) = date[1]
\* known dates
Known == /\ DayNumber(2000, 1, 1) = 0 /\ Weekday(0) = 5
         /\ (date = <<2016, 2, 29>> => Weekday(n) = 0) /\ (date = <<2018, 1, 1>> => Weekday(n) = 0)
\* an ISO week starts on Monday, all its days agree, its Thursday is in its year, and weeks follow each other
Weeks == LET w == WeekStart(n) IN
  /\ Weekday(w) = 0 /\ w <= n /\ n <= w + 6 /\ IsoWeek(n) \in 1..53
  /\ \A k \in 0..6 : IsoYear(w + k) = IsoYear(n) /\ IsoWeek(w + k) = IsoWeek(n)
  /\ IsoYear(n) = YearOfDay(w + 3)
  /\ (date[2] = 1 /\ date[3] = 4) => (IsoWeek(n) = 1 /\ IsoYear(n) = date[1])
  /\ IF IsoYear(w + 7) = IsoYear(n) THEN IsoWeek(w + 7) = IsoWeek(n) + 1 ELSE IsoWeek(w + 7) = 1 /\ IsoYear(w + 7) = IsoYear(n) + 1
Sundays == \A k \in 1..5 : LET s == SundayOf(date[1], date[2], k) IN
  /\ Weekday(s) = 6 /\ (k < 5 => s - DayNumber(date[1], date[2], 1) \in (7 * k - 7)..(7 * k - 1))
  /\ k = 5 => s <= DayNumber(date[1], date[2], DaysIn(date[1], date[2])) /\ s + 7 > DayNumber(date[1], date[2], DaysIn(date[1], date[2]))

\* every UTC moment of this day (per half hour) is among those its local time may stand for; two only in the repeated hour
DateOf(minute) == LET d == AddDays(date[1], date[2], date[3], (minute \div 1440) - n) k == minute % 1440
                  IN <<d[1], d[2], d[3], k \div 60, k % 60>>
Moments == date[1] \in 2012..2037 =>
  \A i \in DOMAIN ZoneTable : \A k \in 0..47 :
    LET z == ZoneTable[i] u == 1440 * n + 30 * k + 29
        local == DateOf(u + Offset(z, u, date[1]))
    IN (local[1] = date[1] /\ date[3] # 31 /\ <<date[2], date[3]>> # <<1, 1>>) => u \in ToUtc(z[1], local)
=============================================================================
