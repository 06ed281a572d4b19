------------------------------- MODULE Archive -------------------------------
(* The archive table: what exporting a record stores.  Measurements are        *)
(* optional pairs of a whole number and millionths; a stored row is a function  *)
(* from columns to optional numbers in units of the column's last place.        *)
EXTENDS Zones, FiniteSets

DoNotInsert == "__do_not_insert_this_value__"
Micro == 1000000

\* attribute of the record, its documented column, units of the column in 1, whether it may be negative, and its largest value
Number(column, units, signed, most) == [column |-> column, units |-> units, low |-> IF signed THEN -most ELSE 0, high |-> most]
Temperature(column) == Number(column, 10, TRUE, 9999)
Numbers == [
  minutes_covered |-> [column |-> "minutes_covered", units |-> 1, low |-> -128, high |-> 127],
  temperature_outside |-> Temperature("temperature_outside"), temperature_outside_low |-> Temperature("temperature_outside_low"),
  temperature_outside_high |-> Temperature("temperature_outside_high"), temperature_inside |-> Temperature("temperature_inside"),
  humidity_outside |-> Number("humidity_outside", 1, FALSE, 255), humidity_inside |-> Number("humidity_inside", 1, FALSE, 255),
  barometric_pressure |-> Number("barometric_pressure", 1000, FALSE, 999999),
  wind_speed |-> Number("wind_speed", 1, FALSE, 65535), wind_speed_high |-> Number("wind_speed_high", 1, FALSE, 65535),
  wind_run_distance_total |-> Number("wind_run_distance_total", 100, FALSE, 999999999),
  rain_amount |-> Number("rain_total", 1000, FALSE, 9999999), rain_rate |-> Number("rain_rate_high", 100, FALSE, 99999),
  rain_amount_clicks |-> Number("rain_clicks", 1, FALSE, 65535), rain_rate_clicks |-> Number("rain_click_rate_high", 1, FALSE, 65535),
  solar_radiation |-> Number("solar_radiation", 1, FALSE, 65535), solar_radiation_high |-> Number("solar_radiation_high", 1, FALSE, 65535),
  uv_index |-> Number("uv_index", 10, FALSE, 9999), uv_index_high |-> Number("uv_index_high", 10, FALSE, 9999),
  evapotranspiration |-> Number("evapotranspiration", 1000, FALSE, 999999),
  temperature_wet_bulb |-> Temperature("temperature_wet_bulb"), temperature_wet_bulb_low |-> Temperature("temperature_wet_bulb_low"),
  temperature_wet_bulb_high |-> Temperature("temperature_wet_bulb_high"),
  dew_point_outside |-> Temperature("dew_point_outside"), dew_point_outside_low |-> Temperature("dew_point_outside_low"),
  dew_point_outside_high |-> Temperature("dew_point_outside_high"), dew_point_inside |-> Temperature("dew_point_inside"),
  heat_index_outside |-> Temperature("heat_index_outside"), heat_index_outside_low |-> Temperature("heat_index_outside_low"),
  heat_index_outside_high |-> Temperature("heat_index_outside_high"), heat_index_inside |-> Temperature("heat_index_inside"),
  wind_chill |-> Temperature("wind_chill"), wind_chill_low |-> Temperature("wind_chill_low"), wind_chill_high |-> Temperature("wind_chill_high"),
  thw_index |-> Temperature("thw_index"), thw_index_low |-> Temperature("thw_index_low"), thw_index_high |-> Temperature("thw_index_high"),
  thsw_index |-> Temperature("thsw_index"), thsw_index_low |-> Temperature("thsw_index_low"), thsw_index_high |-> Temperature("thsw_index_high") ]
Directions == [wind_direction_prevailing |-> "wind_speed_direction", wind_direction_speed_high |-> "wind_speed_high_direction"]
DateParts == [summary_year |-> "summary_year", summary_month |-> "summary_month", summary_day |-> "summary_day"]
Stamps == [timestamp |-> "timestamp_weatherlink", date |-> "timestamp_station", timestamp_utc |-> "timestamp_utc"]
Attributes == DOMAIN Numbers \cup DOMAIN Directions \cup DOMAIN DateParts \cup DOMAIN Stamps
Documented(a) == CASE a \in DOMAIN Numbers -> Numbers[a].column [] a \in DOMAIN Directions -> Directions[a]
                   [] a \in DOMAIN DateParts -> DateParts[a] [] a \in DOMAIN Stamps -> Stamps[a]
\* a column map is given by the attributes it maps otherwise
ColumnOf(overrides, a) == IF a \in DOMAIN overrides THEN overrides[a] ELSE Documented(a)

\* the value x = <<whole, millionths>> in units of a column, to the nearest, either way from half-way
NearestOk(units, x, v) ==
  LET d == v - x[1] * units step == Micro \div units
      diff == d * step - x[2]
  IN d >= -1 /\ d <= units + 1 /\ 2 * (IF diff < 0 THEN -diff ELSE diff) <= step
Fits(n, x) == LET least == x[1] * n.units IN
              least >= n.low - 1 /\ (least >= n.low \/ x[2] > 0) /\ least + ((x[2] * 2 * n.units + Micro) \div (2 * Micro)) <= n.high

\* what a record's column must hold
Missing(value) == value = <<>>
CellOk(record, zone, a, cell) ==
  CASE a \in DOMAIN Numbers -> IF Missing(record[a]) THEN cell = <<>>
                               ELSE cell # <<>> /\ NearestOk(Numbers[a].units, record[a][1], cell[1])
    [] a \in DOMAIN Directions -> cell = record[a]
    [] a = "summary_year" -> cell = <<record.date[1]>>
    [] a = "summary_month" -> cell = <<record.date[2]>>
    [] a = "summary_day" -> cell = <<record.date[3]>>
    [] a = "timestamp" -> cell = record.timestamp
    [] a = "date" -> cell = <<MinuteNumber(record.date)>>
    [] a = "timestamp_utc" -> cell # <<>> /\ cell[1] \in ToUtc(zone, record.date)
\* a row as stored with a column map: the attributes mapped to the marker are left out, so their documented column is empty
WrongCells(record, zone, overrides, row) ==
  {a \in Attributes : LET column == ColumnOf(overrides, a) IN
                      IF column = DoNotInsert THEN row[Documented(a)] # <<>>
                      ELSE column \notin DOMAIN row \/ ~CellOk(record, zone, a, row[column])}

\* the table: a sequence of records in the order they were stored; exporting one of the same time stamp changes nothing
Stored(table, record) == \E k \in DOMAIN table : table[k].timestamp = record.timestamp
Export(table, record) == IF Stored(table, record) THEN table ELSE Append(table, record)
Newest(table) == IF table = <<>> THEN {} ELSE {table[k].timestamp : k \in {j \in DOMAIN table : \A l \in DOMAIN table : 
                   MinuteNumber(table[l].date) <= MinuteNumber(table[j].date)}}
=============================================================================
