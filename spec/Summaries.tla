------------------------------ MODULE Summaries ------------------------------
(* The summary table: what recalculating dates leaves, given the archive.      *)
(* The archive is a function from columns to sets of <<minute, value>>: values *)
(* in units of the column's last place, directions 0..15; a missing value has  *)
(* no element.  A summary row has its key and a function from columns to       *)
(* optional numbers; times are minute numbers.                                 *)
EXTENDS Calendar, Wind, FiniteSetsExt

\* summary column, aggregate, archive column, 10^(more digits than the archive column)
LowHighAverage(c) == << <<c \o "_low", "min", c \o "_low", 1>>, <<c \o "_high", "max", c \o "_high", 1>>, <<c \o "_average", "avg", c, 1>> >>
OfOne(c) == << <<c \o "_low", "min", c, 1>>, <<c \o "_high", "max", c, 1>>, <<c \o "_average", "avg", c, 1>> >>
OfHigh(c, e) == << <<c \o "_low", "min", c, 1>>, <<c \o "_high", "max", c \o "_high", 1>>, <<c \o "_average", "avg", c, e>> >>
Aggregates ==
  LowHighAverage("temperature_outside") \o OfOne("temperature_inside") \o OfOne("humidity_outside") \o OfOne("humidity_inside")
  \o OfOne("barometric_pressure")
  \o << <<"wind_speed_high", "max", "wind_speed_high", 1>>, <<"wind_speed_average", "avg", "wind_speed", 100>>,
        <<"wind_run_distance_total", "sum", "wind_run_distance_total", 1>>, <<"rain_total", "sum", "rain_total", 1>>,
        <<"rain_rate_high", "max", "rain_rate_high", 1>> >>
  \o OfHigh("solar_radiation", 10) \o OfHigh("uv_index", 1) \o << <<"evapotranspiration", "sum", "evapotranspiration", 1>> >>
  \o LowHighAverage("temperature_wet_bulb") \o LowHighAverage("dew_point_outside") \o OfOne("dew_point_inside")
  \o LowHighAverage("heat_index_outside") \o OfOne("heat_index_inside") \o LowHighAverage("wind_chill")
  \o LowHighAverage("thw_index") \o LowHighAverage("thsw_index")

\* extremes with a time: summary column, archive column, whether zero means that nothing happened
Stamped ==
  << <<"temperature_outside_low", "temperature_outside_low", FALSE>>, <<"temperature_outside_high", "temperature_outside_high", FALSE>>,
     <<"humidity_outside_low", "humidity_outside", FALSE>>, <<"humidity_outside_high", "humidity_outside", FALSE>>,
     <<"barometric_pressure_low", "barometric_pressure", FALSE>>, <<"barometric_pressure_high", "barometric_pressure", FALSE>>,
     <<"wind_speed_high", "wind_speed_high", TRUE>>, <<"rain_rate_high", "rain_rate_high", TRUE>>,
     <<"solar_radiation_high", "solar_radiation_high", TRUE>>, <<"uv_index_high", "uv_index_high", TRUE>>,
     <<"temperature_wet_bulb_low", "temperature_wet_bulb_low", FALSE>>, <<"temperature_wet_bulb_high", "temperature_wet_bulb_high", FALSE>>,
     <<"dew_point_outside_low", "dew_point_outside_low", FALSE>>, <<"dew_point_outside_high", "dew_point_outside_high", FALSE>>,
     <<"heat_index_outside_high", "heat_index_outside_high", FALSE>>, <<"wind_chill_low", "wind_chill_low", FALSE>>,
     <<"thw_index_low", "thw_index_low", FALSE>>, <<"thw_index_high", "thw_index_high", FALSE>>,
     <<"thsw_index_low", "thsw_index_low", FALSE>>, <<"thsw_index_high", "thsw_index_high", FALSE>> >>
TimeOf(c) == c \o "_timestamp"
Columns == {Aggregates[j][3] : j \in DOMAIN Aggregates} \cup {"minutes_covered", "wind_speed_direction", "wind_speed_high_direction"}

-----------------------------------------------------------------------------
(* Periods: a key <<type, year, month, week, day>> and its first and last day  *)
DayKey(d) == <<"DAILY", d[1], d[2], 0, d[3]>>
WeekKey(d) == LET n == DayNumber(d[1], d[2], d[3]) IN <<"WEEKLY", IsoYear(n), 0, IsoWeek(n), 0>>
MonthKey(d) == <<"MONTHLY", d[1], d[2], 0, 0>>
YearKey(d) == <<"YEARLY", d[1], 0, 0, 0>>
Touched(dates) == UNION {{DayKey(d), WeekKey(d), MonthKey(d), YearKey(d)} : d \in dates}
\* the Monday of an ISO week: that of the week with January 4th, and whole weeks on
MondayOf(y, w) == WeekStart(DayNumber(y, 1, 4)) + 7 * (w - 1)
First(k) == CASE k[1] = "DAILY" -> DayNumber(k[2], k[3], k[5]) [] k[1] = "WEEKLY" -> MondayOf(k[2], k[4])
              [] k[1] = "MONTHLY" -> DayNumber(k[2], k[3], 1) [] k[1] = "YEARLY" -> DayNumber(k[2], 1, 1)
Last(k) == CASE k[1] = "DAILY" -> First(k) [] k[1] = "WEEKLY" -> First(k) + 6
             [] k[1] = "MONTHLY" -> DayNumber(k[2], k[3], DaysIn(k[2], k[3])) [] k[1] = "YEARLY" -> DayNumber(k[2], 12, 31)
Within(k, t) == First(k) * 1440 <= t /\ t < (Last(k) + 1) * 1440
\* the archive within a period
Cut(archive, k) == LET a == First(k) * 1440 b == (Last(k) + 1) * 1440 IN
                   [c \in Columns |-> {p \in archive[c] : a <= p[1] /\ p[1] < b}]

-----------------------------------------------------------------------------
(* Aggregates over the values of a period *)
Sum(values) == FoldSet(LAMBDA p, s : p[2] + s, 0, values)
Lowest(values) == CHOOSE v \in {p[2] : p \in values} : \A p \in values : v <= p[2]
Highest(values) == CHOOSE v \in {p[2] : p \in values} : \A p \in values : v >= p[2]
Abs(x) == IF x < 0 THEN -x ELSE x
\* v is sum/n to the nearest
NearestMean(v, sum, n) == 2 * Abs(v * n - sum) <= n
AggregateOk(how, values, e, cell) ==
  IF values = {} THEN cell = <<>>
  ELSE /\ cell # <<>>
       /\ CASE how = "min" -> cell[1] = Lowest(values) [] how = "max" -> cell[1] = Highest(values)
            [] how = "sum" -> cell[1] = Sum(values)
            [] how = "avg" -> NearestMean(cell[1], Sum(values) * e, Cardinality(values))
WrongAggregates(cut, v) == {Aggregates[j][1] : j \in {i \in DOMAIN Aggregates :
                              ~AggregateOk(Aggregates[i][2], cut[Aggregates[i][3]], Aggregates[i][4], v[Aggregates[i][1]])}}

\* a most common direction; without wind there may be none
Modes(values) == {p[2] : p \in {q \in values : \A r \in values :
                   Cardinality({x \in values : x[2] = r[2]}) <= Cardinality({x \in values : x[2] = q[2]})}}
ModeOk(values, wind, cell) == \/ cell = <<>> /\ (values = {} \/ ~wind)
                              \/ cell # <<>> /\ cell[1] \in Modes(values)
WrongDirections(cut, v) ==
  LET gusts == cut["wind_speed_high"]
      wind == gusts # {} /\ Highest(gusts) > 0
      when == IF gusts = {} THEN {} ELSE {p[1] : p \in {q \in gusts : q[2] = Highest(gusts)}}
  IN (IF ModeOk(cut["wind_speed_direction"], wind, v["wind_direction_prevailing"]) THEN {} ELSE {"wind_direction_prevailing"})
     \cup (IF ModeOk({p \in cut["wind_speed_high_direction"] : p[1] \in when}, wind, v["wind_speed_high_direction"]) THEN {}
           ELSE {"wind_speed_high_direction"})

-----------------------------------------------------------------------------
(* Daily only: degree days from the mean temperature, and the 10-minute wind   *)
DegreesOk(S, n, heating, cooling) ==
  LET below == 650 * n - S IN
  /\ IF below > 0 THEN heating # <<>> /\ NearestMean(heating[1], below, n) ELSE heating = <<>>
  /\ IF below < 0 THEN cooling # <<>> /\ NearestMean(cooling[1], -below, n) ELSE cooling = <<>>
WrongDegrees(cut, v) ==
  LET t == cut["temperature_outside"] h == v["integrated_heating_degree_days"] c == v["integrated_cooling_degree_days"] IN
  IF IF t = {} THEN h = <<>> /\ c = <<>> ELSE DegreesOk(Sum(t), Cardinality(t), h, c) THEN {} ELSE {"degree_days"}

ValueAt(values, t) == LET x == {p \in values : p[1] = t} IN IF x = {} THEN <<>> ELSE <<(CHOOSE p \in x : TRUE)[2]>>
RECURSIVE InOrder(_)
InOrder(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE a \in s : \A b \in s : a[1] <= b[1] IN <<x>> \o InOrder(s \ {x})
WindRecords(cut) ==
  LET rows == InOrder(cut["minutes_covered"]) IN
  [j \in DOMAIN rows |-> LET s == ValueAt(cut["wind_speed"], rows[j][1]) IN
     [s |-> IF s = <<>> THEN <<>> ELSE <<10 * s[1]>>, d |-> ValueAt(cut["wind_speed_direction"], rows[j][1]), e |-> rows[j][1], m |-> 100 * rows[j][2]]]
Wind10 == <<"wind_speed_high_10_minute_average", "wind_speed_high_10_minute_average_direction",
            "wind_speed_high_10_minute_average_start", "wind_speed_high_10_minute_average_end">>
WindOf(v) == [j \in 1..4 |-> v[Wind10[j]]]
NoWind == [j \in 1..4 |-> <<>>]
WrongDailyWind(cut, v) ==
  LET w == WindowMax(WindRecords(cut)) IN
  IF IF ~w.any THEN WindOf(v) = NoWind
     ELSE /\ v[Wind10[1]] = <<w.speed>> /\ v[Wind10[2]] \in w.directions
          /\ v[Wind10[3]] = <<w.start - 1>> /\ v[Wind10[4]] = <<w.end % 1440>>
  THEN {} ELSE {"wind_10_minute"}

-----------------------------------------------------------------------------
(* The longer periods: over the shorter summaries as they stand (rows)         *)
Parts(rows, type, k) == {r \in rows : r.key[1] = type /\
  CASE type = "WEEKLY" -> r.key[2] = k[2]             \* the weeks of an ISO year
    [] OTHER -> First(k) <= First(r.key) /\ First(r.key) <= Last(k)}
Shorter(k) == IF k[1] = "YEARLY" THEN "MONTHLY" ELSE "DAILY"
SumOk(parts, c, cell) == LET some == {r \in parts : r.v[c] # <<>>} IN
  IF some = {} THEN cell = <<>> ELSE cell = <<FoldSet(LAMBDA r, s : r.v[c][1] + s, 0, some)>>
BestWindOk(parts, v) ==
  LET some == {r \in parts : r.v[Wind10[1]] # <<>>} IN
  IF some = {} THEN WindOf(v) = NoWind
  ELSE \E r \in some : WindOf(r.v) = WindOf(v) /\ \A q \in some : q.v[Wind10[1]][1] <= r.v[Wind10[1]][1]
\* an average of nothing or of zero leaves what was there
RunOk(parts, before, cell) ==
  LET some == {r \in parts : r.v["wind_run_distance_total"] # <<>>}
      sum == FoldSet(LAMBDA r, s : r.v["wind_run_distance_total"][1] + s, 0, some)
  IN IF some = {} \/ sum = 0 THEN cell \in {before, <<>>, <<0>>}
     ELSE cell # <<>> /\ NearestMean(cell[1], sum, Cardinality(some))
Runs(k) == CASE k[1] = "YEARLY" -> <<"daily", "weekly", "monthly">> [] k[1] = "DAILY" -> <<>> [] OTHER -> <<"daily">>
RunColumn(x) == "wind_run_distance_" \o x \o "_average"
TypeOfRun(x) == CASE x = "daily" -> "DAILY" [] x = "weekly" -> "WEEKLY" [] x = "monthly" -> "MONTHLY"
\* before: the columns the row had, all empty if it is new
WrongParts(rows, before, k, v) ==
  LET parts == Parts(rows, Shorter(k), k) IN
  (IF SumOk(parts, "integrated_heating_degree_days", v["integrated_heating_degree_days"])
      /\ SumOk(parts, "integrated_cooling_degree_days", v["integrated_cooling_degree_days"]) THEN {} ELSE {"degree_days"})
  \cup (IF BestWindOk(parts, v) THEN {} ELSE {"wind_10_minute"})
  \cup UNION {IF \E j \in DOMAIN Runs(k) : Runs(k)[j] = x
              THEN IF RunOk(Parts(rows, TypeOfRun(x), k), before[RunColumn(x)], v[RunColumn(x)]) THEN {} ELSE {RunColumn(x)}
              ELSE IF v[RunColumn(x)] = <<>> THEN {} ELSE {RunColumn(x)} : x \in {"daily", "weekly", "monthly"}}

-----------------------------------------------------------------------------
(* Times of extremes.  fresh: all days of the period with records have been    *)
(* recalculated since their last one came.                                     *)
Moments(values, v) == {p[1] : p \in {q \in values : q[2] = v}}
Earliest(ts) == CHOOSE t \in ts : \A u \in ts : t <= u
TimeOk(k, values, zeroIsNothing, fresh, cell) ==
  IF values[1] = <<>> \/ (zeroIsNothing /\ values[1] = <<0>>) THEN cell = <<>>
  ELSE LET ts == Moments(values[2], values[1][1]) IN
       IF fresh \/ k[1] \in {"DAILY", "WEEKLY"} THEN ts # {} /\ cell = <<Earliest(ts)>>
       ELSE cell = <<>> \/ cell[1] \in ts
WrongTimes(cut, k, fresh, v) == {TimeOf(Stamped[j][1]) : j \in {i \in DOMAIN Stamped :
  ~TimeOk(k, <<v[Stamped[i][1]], cut[Stamped[i][2]]>>, Stamped[i][3], fresh, v[TimeOf(Stamped[i][1])])}}

-----------------------------------------------------------------------------
(* A recalculation: the rows before and after, and the archive                 *)
Keys(rows) == {r.key : r \in rows}
RowOf(rows, k) == CHOOSE r \in rows : r.key = k
Empty(v) == [c \in DOMAIN v |-> <<>>]
SpanOk(r) == IF r.key[1] = "WEEKLY" THEN r.start = <<First(r.key)>> /\ r.end = <<Last(r.key)>> ELSE r.start = <<>> /\ r.end = <<>>
WrongRow(archive, before, after, k) ==
  LET r == RowOf(after, k) cut == Cut(archive, k) IN
  WrongAggregates(cut, r.v) \cup WrongDirections(cut, r.v)
  \cup (IF k[1] = "DAILY" THEN WrongDegrees(cut, r.v) \cup WrongDailyWind(cut, r.v)
                               \cup {RunColumn(x) : x \in {y \in {"daily", "weekly", "monthly"} : r.v[RunColumn(y)] # <<>>}}
        ELSE WrongParts(after, IF k \in Keys(before) THEN RowOf(before, k).v ELSE Empty(r.v), k, r.v))
  \cup (IF SpanOk(r) THEN {} ELSE {"week_span"})
\* days with records not recalculated since
StaleDays(archive, fresh) == {p[1] \div 1440 : p \in archive["minutes_covered"]} \ fresh
AllFresh(archive, fresh, k) == \A n \in StaleDays(archive, fresh) : n < First(k) \/ n > Last(k)
=============================================================================
