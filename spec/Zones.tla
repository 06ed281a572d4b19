-------------------------------- MODULE Zones --------------------------------
(* Time zones: the standard offset from UTC in minutes (east is positive), the *)
(* daylight saving time added, and when it begins and ends.                    *)
(* A change is <<month, k-th Sunday (5: last), minute of the day, clock>> with  *)
(* the clock it is given in: standard, daylight or UTC.                        *)
EXTENDS Calendar, Sequences

Us == << <<3, 2, 120, "standard">>, <<11, 1, 120, "daylight">> >>
UsBefore2007 == << <<4, 1, 120, "standard">>, <<10, 5, 120, "daylight">> >>
Eu == << <<3, 5, 60, "utc">>, <<10, 5, 60, "utc">> >>
Australia == << <<10, 1, 120, "standard">>, <<4, 1, 180, "daylight">> >>
LordHowe == << <<10, 1, 120, "standard">>, <<4, 1, 120, "daylight">> >>
NewZealand == << <<9, 5, 120, "standard">>, <<4, 1, 180, "daylight">> >>
Never == <<>>

\* name, standard offset, saving, rules, and the first year they hold for (all hold to 2037)
ZoneTable == <<
  <<"America/Chicago", -360, 60, Us, 2007>>, <<"America/New_York", -300, 60, Us, 2007>>, <<"America/Denver", -420, 60, Us, 2007>>,
  <<"America/Anchorage", -540, 60, Us, 2007>>, <<"America/St_Johns", -210, 60, Us, 2012>>, <<"America/Phoenix", -420, 0, Never, 2000>>,
  <<"Pacific/Honolulu", -600, 0, Never, 2000>>, <<"Europe/London", 0, 60, Eu, 2000>>, <<"Europe/Berlin", 60, 60, Eu, 2000>>,
  <<"Europe/Helsinki", 120, 60, Eu, 2000>>, <<"Asia/Kolkata", 330, 0, Never, 2000>>, <<"Asia/Kathmandu", 345, 0, Never, 2000>>,
  <<"Asia/Tokyo", 540, 0, Never, 2000>>, <<"Australia/Sydney", 600, 60, Australia, 2009>>, <<"Australia/Brisbane", 600, 0, Never, 2000>>,
  <<"Australia/Adelaide", 570, 60, Australia, 2009>>, <<"Australia/Lord_Howe", 630, 30, LordHowe, 2009>>,
  <<"Pacific/Auckland", 720, 60, NewZealand, 2008>>, <<"UTC", 0, 0, Never, 2000>>,
  <<"Fixed+05:30", 330, 0, Never, 2000>>, <<"Fixed-09:30", -570, 0, Never, 2000>>, <<"Fixed+14:00", 840, 0, Never, 2000>>  >>
Zone(name) == LET i == CHOOSE i \in DOMAIN ZoneTable : ZoneTable[i][1] = name IN ZoneTable[i]
\* Chicago's earlier rules, for records from old files
RulesIn(z, y) == IF z[1] \in {"America/Chicago", "America/New_York", "America/Denver"} /\ y < 2007 THEN UsBefore2007 ELSE z[4]

\* the UTC minute of a change
ChangeAt(z, y, c) == 1440 * SundayOf(y, c[1], c[2]) + c[3]
                     - (CASE c[4] = "utc" -> 0 [] c[4] = "standard" -> z[2] [] c[4] = "daylight" -> z[2] + z[3])
\* whether daylight saving time is in force in a zone at a UTC minute; y: the year there, give or take the turn of the year
Daylight(z, u, y) ==
  LET r == RulesIn(z, y) IN
  IF r = Never THEN FALSE
  ELSE LET begins == ChangeAt(z, y, r[1]) ends == ChangeAt(z, y, r[2]) IN
       IF begins < ends THEN begins <= u /\ u < ends ELSE u < ends \/ begins <= u
Offset(z, u, y) == z[2] + (IF Daylight(z, u, y) THEN z[3] ELSE 0)

\* the UTC minutes a station-local minute <<y, m, d, h, min>> may stand for
ToUtc(name, t) ==
  LET z == Zone(name) l == MinuteNumber(t)
      both == {l - z[2], l - z[2] - z[3]}
      right == {u \in both : u + Offset(z, u, t[1]) = l}
  IN IF right = {} THEN both ELSE right
=============================================================================
