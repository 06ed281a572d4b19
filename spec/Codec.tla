------------------------------- MODULE Codec --------------------------------
(* The byte formats of the Vantage Pro2 console, the WeatherLink.com         *)
(* download and the WeatherLink database file, written from their layout     *)
(* descriptions: for every field its offset, width, sign and the raw value   *)
(* that means "no data".  A decoded value is the raw integer (the driver     *)
(* reports scaled values back in units of the field's resolution).           *)
EXTENDS Calendar, Sequences, FiniteSets, Bitwise

U8(b, o) == b[o + 1]
S8(b, o) == IF b[o + 1] >= 128 THEN b[o + 1] - 256 ELSE b[o + 1]
U16(b, o) == b[o + 1] + 256 * b[o + 2]
S16(b, o) == LET u == U16(b, o) IN IF u >= 32768 THEN u - 65536 ELSE u

Raw(b, kind, o) == CASE kind = "u8" -> U8(b, o) [] kind = "s8" -> S8(b, o)
                     [] kind = "u16" -> U16(b, o) [] kind = "s16" -> S16(b, o)

\* an optional value: <<>> for "no data"
Opt(v, none) == IF none = <<>> THEN <<v>> ELSE IF v = none[1] THEN <<>> ELSE <<v>>
Field(b, f) == Opt(Raw(b, f[2], f[3]), f[4])

-----------------------------------------------------------------------------
(* The checksum: CRC-CCITT, polynomial 16#1021, initial value 0, MSB first.  *)

RECURSIVE Shift8(_, _)
Shift8(r, n) == IF n = 0 THEN r
                ELSE Shift8(IF r >= 32768 THEN ((2 * r) % 65536) ^^ 4129 ELSE 2 * r, n - 1)
CrcTable == [x \in 0..255 |-> Shift8(x * 256, 8)]
CrcStep(crc, byte) == CrcTable[(crc \div 256) ^^ byte] ^^ ((crc % 256) * 256)
RECURSIVE CrcFrom(_, _, _)
CrcFrom(crc, b, i) == IF i > Len(b) THEN crc ELSE CrcFrom(CrcStep(crc, b[i]), b, i + 1)
Crc(b) == CrcFrom(0, b, 1)

-----------------------------------------------------------------------------
(* Date-times <<y, m, d, h, min>> and timestamps <<upper, lower 16 bits>>.   *)

Pack(t) == <<t[3] + 32 * t[2] + 512 * (t[1] - 2000), t[5] + 100 * t[4]>>
Unpack(ts) == LET y == ts[1] \div 512 + 2000
                  m == (ts[1] % 512) \div 32
              IN <<y, m, ts[1] % 32, ts[2] \div 100, ts[2] % 100>>
ValidStamp(ts) == LET t == Unpack(ts) IN ValidDate(t[1], t[2], t[3]) /\ t[4] \in 0..23 /\ t[5] \in 0..59

-----------------------------------------------------------------------------
(* Wind directions: compass points 0 (N) to 15 (NNW).                        *)

\* the sector a direction in degrees falls into; the sectors end at 11, 34, 56, 79, ... 349 degrees
SectorEnd(k) == (45 * k + 23) \div 2
Compass(d) == IF d < 1 \/ d > 360 THEN <<>>
              ELSE IF d > SectorEnd(15) THEN <<0>>
              ELSE <<CHOOSE k \in 0..15 : d <= SectorEnd(k) /\ (k > 0 => d > SectorEnd(k - 1))>>
CodeDegrees10(k) == IF k = 0 THEN 3600 ELSE 225 * k     \* tenths of a degree; north is 360
ValidCode(c) == c \in 0..15 \/ c = 255

-----------------------------------------------------------------------------
(* Rain collectors: size of one click in units of 10^-8 inch, as <<q, r>>    *)
(* with q * 10^4 + r.                                                        *)

ClickInches == [inches_0_1 |-> <<1000, 0>>, inches_0_01 |-> <<100, 0>>, millimeters_0_2 |-> <<78, 7402>>,
                millimeters_1_0 |-> <<393, 7010>>, millimeters_0_1 |-> <<39, 3701>>]
DatabaseCollector == <<[code |-> 0, name |-> "inches_0_1"], [code |-> 4096, name |-> "inches_0_01"],
                       [code |-> 8192, name |-> "millimeters_0_2"], [code |-> 12288, name |-> "millimeters_1_0"],
                       [code |-> 24576, name |-> "millimeters_0_1"]>>
Inches(name, clicks) == LET s == ClickInches[name] lo == clicks * s[2]
                        IN <<clicks * s[1] + lo \div 10000, lo % 10000>>

-----------------------------------------------------------------------------
(* LOOP2 packet, 99 bytes.                                                   *)

Loop2Length == 99
Loop2Fixed == <<  <<0, 76>>, <<1, 79>>, <<2, 79>>, <<4, 1>>, <<5, 255>>, <<6, 127>>, <<15, 255>>,
  <<26, 255>>, <<27, 127>>, <<28, 255>>, <<29, 127>>, <<32, 255>>, <<34, 255>>, <<71, 255>>,
  <<83, 255>>, <<84, 127>>, <<85, 255>>, <<86, 127>>, <<87, 255>>, <<88, 127>>, <<89, 255>>, <<90, 127>>,
  <<91, 255>>, <<92, 127>>, <<93, 255>>, <<94, 127>>, <<95, 10>>, <<96, 13>>  >>
Loop2Fields == <<
  <<"barometric_pressure", "u16", 7, <<0>> >>,
  <<"temperature_inside", "s16", 9, <<32767>> >>,
  <<"humidity_inside", "u8", 11, <<255>> >>,
  <<"temperature_outside", "s16", 12, <<32767>> >>,
  <<"wind_speed", "u8", 14, <<255>> >>,
  <<"wind_direction_degrees", "u16", 16, <<0>> >>,
  <<"wind_speed_10_minute_average", "u16", 18, <<0>> >>,
  <<"wind_speed_2_minute_average", "u16", 20, <<0>> >>,
  <<"wind_speed_10_minute_gust", "u16", 22, <<0>> >>,
  <<"wind_speed_10_minute_gust_direction_degrees", "u16", 24, <<0>> >>,
  <<"dew_point", "s16", 30, <<255>> >>,
  <<"humidity_outside", "u8", 33, <<255>> >>,
  <<"heat_index", "s16", 35, <<255>> >>,
  <<"wind_chill", "s16", 37, <<255>> >>,
  <<"thsw_index", "s16", 39, <<255>> >>,
  <<"rain_rate_clicks", "u16", 41, <<>> >>,
  <<"uv_index", "u8", 43, <<255>> >>,
  <<"solar_radiation", "u16", 44, <<32767>> >>,
  <<"rain_clicks_this_storm", "u16", 46, <<>> >>,
  <<"rain_clicks_today", "u16", 50, <<>> >>,
  <<"rain_clicks_15_minutes", "u16", 52, <<>> >>,
  <<"rain_clicks_1_hour", "u16", 54, <<>> >>,
  <<"evapotranspiration", "u16", 56, <<0>> >>,
  <<"rain_clicks_24_hours", "u16", 58, <<>> >>,
  <<"minute_in_hour", "u8", 79, <<60>> >>  >>
Loop2Compass == <<  <<"wind_direction", 16>>, <<"wind_speed_10_minute_gust_direction", 24>>  >>
Loop2Rain == <<  <<"rain_rate", 41>>, <<"rain_amount_this_storm", 46>>, <<"rain_amount_today", 50>>,
  <<"rain_amount_15_minutes", 52>>, <<"rain_amount_1_hour", 54>>, <<"rain_amount_24_hours", 58>>  >>
Trends == {-60, -20, 0, 20, 60}

Loop2Framed(b) == Len(b) >= Loop2Length /\ \A i \in DOMAIN Loop2Fixed : U8(b, Loop2Fixed[i][1]) = Loop2Fixed[i][2]
Loop2Crc(b) == IF Crc(SubSeq(b, 1, Loop2Length)) = 0 THEN 1 ELSE 0
Loop2Trend(b) == IF S8(b, 3) \in Trends THEN <<S8(b, 3)>> ELSE <<>>

\* the names of the decoded values of rec that are not those of packet b
Loop2Bad(b, rec) ==
  {Loop2Fields[i][1] : i \in {j \in DOMAIN Loop2Fields : rec[Loop2Fields[j][1]] # Field(b, Loop2Fields[j])}}
  \cup {Loop2Compass[i][1] : i \in {j \in DOMAIN Loop2Compass : rec[Loop2Compass[j][1]] # Compass(U16(b, Loop2Compass[j][2]))}}
  \cup {Loop2Rain[i][1] : i \in {j \in DOMAIN Loop2Rain : rec[Loop2Rain[j][1]] # Opt(U16(b, Loop2Rain[j][2]), <<0>>)}}
  \cup (IF rec["barometric_trend"] # Loop2Trend(b) THEN {"barometric_trend"} ELSE {})
  \cup (IF rec["crc_match"] # <<Loop2Crc(b)>> THEN {"crc_match"} ELSE {})
  \cup (IF rec["record_type"] # <<2>> THEN {"record_type"} ELSE {})

-----------------------------------------------------------------------------
(* Downloaded archive record, 52 bytes.                                      *)

DownloadLength == 52
DownloadFields == <<
  <<"temperature_outside", "s16", 4, <<32767>> >>,
  <<"temperature_outside_high", "s16", 6, <<-32768>> >>,
  <<"temperature_outside_low", "s16", 8, <<32767>> >>,
  <<"rain_amount_clicks", "u16", 10, <<>> >>,
  <<"rain_rate_clicks", "u16", 12, <<>> >>,
  <<"barometric_pressure", "u16", 14, <<0>> >>,
  <<"solar_radiation", "s16", 16, <<32767>> >>,
  <<"number_of_wind_samples", "u16", 18, <<0>> >>,
  <<"temperature_inside", "s16", 20, <<32767>> >>,
  <<"humidity_inside", "u8", 22, <<255>> >>,
  <<"humidity_outside", "u8", 23, <<255>> >>,
  <<"wind_speed", "u8", 24, <<255>> >>,
  <<"wind_speed_high", "u8", 25, <<0>> >>,
  <<"wind_direction_speed_high", "u8", 26, <<255>> >>,
  <<"wind_direction_prevailing", "u8", 27, <<255>> >>,
  <<"uv_index", "u8", 28, <<255>> >>,
  <<"evapotranspiration", "u8", 29, <<0>> >>,
  <<"solar_radiation_high", "s16", 30, <<32767>> >>,
  <<"uv_index_high", "u8", 32, <<255>> >>  >>
DownloadDirections == <<  <<"wind_direction_speed_high_degrees", 26>>, <<"wind_direction_prevailing_degrees", 27>>  >>

DegreesOf(code) == IF code = 255 THEN <<>> ELSE <<CodeDegrees10(code)>>
DownloadStamp(b) == <<U16(b, 0), U16(b, 2)>>
DownloadEmpty(b) == Len(b) >= DownloadLength /\ S16(b, 0) < 1
DownloadSound(b) == Len(b) >= DownloadLength /\ U8(b, 42) = 0 /\ ValidStamp(DownloadStamp(b))
                    /\ ValidCode(U8(b, 26)) /\ ValidCode(U8(b, 27))
DownloadBad(b, minutes, rec) ==
  {DownloadFields[i][1] : i \in {j \in DOMAIN DownloadFields : rec[DownloadFields[j][1]] # Field(b, DownloadFields[j])}}
  \cup {DownloadDirections[i][1] : i \in {j \in DOMAIN DownloadDirections :
                  rec[DownloadDirections[j][1]] # DegreesOf(U8(b, DownloadDirections[j][2]))}}
  \cup (IF rec["rain_amount"] # <<U16(b, 10)>> THEN {"rain_amount"} ELSE {})
  \cup (IF rec["rain_rate"] # <<U16(b, 12)>> THEN {"rain_rate"} ELSE {})
  \cup (IF rec["minutes_covered"] # <<minutes>> THEN {"minutes_covered"} ELSE {})
  \cup (IF rec["timestamp"] # DownloadStamp(b) THEN {"timestamp"} ELSE {})
  \cup (IF rec["date"] # <<Unpack(DownloadStamp(b))>> THEN {"date"} ELSE {})

-----------------------------------------------------------------------------
(* Interval record of a WeatherLink database file, 88 bytes.                 *)

WlkLength == 88
WlkFields == <<
  <<"minutes_covered", "s8", 1, <<>> >>,
  <<"minutes_past_midnight", "s16", 4, <<>> >>,
  <<"temperature_outside", "s16", 6, <<32767>> >>,
  <<"temperature_outside_high", "s16", 8, <<-32768>> >>,
  <<"temperature_outside_low", "s16", 10, <<32767>> >>,
  <<"temperature_inside", "s16", 12, <<32767>> >>,
  <<"barometric_pressure", "s16", 14, <<0>> >>,
  <<"humidity_outside", "s16", 16, <<255>> >>,
  <<"humidity_inside", "s16", 18, <<255>> >>,
  <<"rain_rate_clicks", "s16", 22, <<>> >>,
  <<"wind_speed", "s16", 24, <<255>> >>,
  <<"wind_speed_high", "s16", 26, <<0>> >>,
  <<"wind_direction_prevailing", "u8", 28, <<255>> >>,
  <<"wind_direction_speed_high", "u8", 29, <<255>> >>,
  <<"number_of_wind_samples", "s16", 30, <<0>> >>,
  <<"solar_radiation", "s16", 32, <<-32768>> >>,
  <<"solar_radiation_high", "s16", 34, <<-32768>> >>,
  <<"uv_index", "u8", 36, <<255>> >>,
  <<"uv_index_high", "u8", 37, <<255>> >>  >>
WlkDirections == <<  <<"wind_direction_prevailing_degrees", 28>>, <<"wind_direction_speed_high_degrees", 29>>  >>

WlkCollector(b) == {DatabaseCollector[i].name : i \in {j \in DOMAIN DatabaseCollector :
                                                       DatabaseCollector[j].code = (U16(b, 20) \div 4096) * 4096}}
WlkClicks(b) == U16(b, 20) % 4096
WlkSound(b) == Len(b) >= WlkLength /\ U8(b, 0) = 1 /\ WlkCollector(b) # {} /\ ValidCode(U8(b, 28)) /\ ValidCode(U8(b, 29))
WlkDate(b, ymd) == MinuteOf(ymd[1], ymd[2], ymd[3], S16(b, 4))
WlkBad(b, ymd, rec) ==
  LET collector == CHOOSE c \in WlkCollector(b) : TRUE IN
  {WlkFields[i][1] : i \in {j \in DOMAIN WlkFields : rec[WlkFields[j][1]] # Field(b, WlkFields[j])}}
  \cup {WlkDirections[i][1] : i \in {j \in DOMAIN WlkDirections :
                  rec[WlkDirections[j][1]] # DegreesOf(U8(b, WlkDirections[j][2]))}}
  \cup (IF rec["rain_amount_clicks"] # <<WlkClicks(b)>> THEN {"rain_amount_clicks"} ELSE {})
  \cup (IF rec["rain_collector_type"] # collector THEN {"rain_collector_type"} ELSE {})
  \cup (IF rec["rain_amount"] # Inches(collector, WlkClicks(b)) THEN {"rain_amount"} ELSE {})
  \cup (IF rec["rain_rate"] # Inches(collector, S16(b, 22)) THEN {"rain_rate"} ELSE {})
  \cup (IF rec["date"] # <<WlkDate(b, ymd)>> THEN {"date"} ELSE {})
  \cup (IF rec["timestamp"] # Pack(WlkDate(b, ymd)) THEN {"timestamp"} ELSE {})

-----------------------------------------------------------------------------
(* Daily summary of a WeatherLink database file, 2 * 88 bytes.               *)

SummaryLength == 176
SummaryFields == <<
  <<"minutes", "s16", 2, <<>> >>,
  <<"temperature_outside_high", "s16", 4, <<-32768>> >>,
  <<"temperature_outside_low", "s16", 6, <<32767>> >>,
  <<"temperature_inside_high", "s16", 8, <<-32768>> >>,
  <<"temperature_inside_low", "s16", 10, <<32767>> >>,
  <<"temperature_outside_average", "s16", 12, <<32767>> >>,
  <<"temperature_inside_average", "s16", 14, <<32767>> >>,
  <<"wind_chill_high", "s16", 16, <<-32768>> >>,
  <<"wind_chill_low", "s16", 18, <<32767>> >>,
  <<"dew_point_high", "s16", 20, <<-32768>> >>,
  <<"dew_point_low", "s16", 22, <<32767>> >>,
  <<"wind_chill_average", "s16", 24, <<32767>> >>,
  <<"dew_point_average", "s16", 26, <<32767>> >>,
  <<"humidity_outside_high", "s16", 28, <<255>> >>,
  <<"humidity_outside_low", "s16", 30, <<255>> >>,
  <<"humidity_inside_high", "s16", 32, <<255>> >>,
  <<"humidity_inside_low", "s16", 34, <<255>> >>,
  <<"humidity_outside_average", "s16", 36, <<255>> >>,
  <<"barometric_pressure_high", "s16", 38, <<0>> >>,
  <<"barometric_pressure_low", "s16", 40, <<0>> >>,
  <<"barometric_pressure_average", "s16", 42, <<0>> >>,
  <<"wind_speed_high", "s16", 44, <<0>> >>,
  <<"wind_speed_average", "s16", 46, <<0>> >>,
  <<"wind_daily_run", "s16", 48, <<0>> >>,
  <<"wind_speed_high_10_minute_average", "s16", 50, <<-32768>> >>,
  <<"wind_speed_high_direction", "u8", 52, <<255>> >>,
  <<"wind_speed_high_10_minute_average_direction", "u8", 53, <<255>> >>,
  <<"rain_total", "s16", 54, <<>> >>,
  <<"rain_rate_high", "s16", 56, <<>> >>,
  <<"total_wind_packets", "u16", 92, <<>> >>,
  <<"heat_index_high", "s16", 102, <<-32768>> >>,
  <<"heat_index_low", "s16", 104, <<32767>> >>,
  <<"heat_index_average", "s16", 106, <<32767>> >>,
  <<"thw_index_high", "s16", 112, <<-32768>> >>,
  <<"thw_index_low", "s16", 114, <<32767>> >>,
  <<"integrated_heating_degree_days", "s16", 116, <<0>> >>,
  <<"temperature_wet_bulb_high", "s16", 118, <<-32768>> >>,
  <<"temperature_wet_bulb_low", "s16", 120, <<32767>> >>,
  <<"temperature_wet_bulb_average", "s16", 122, <<32767>> >>,
  <<"integrated_cooling_degree_days", "s16", 163, <<0>> >>  >>
SummarySound(b) == Len(b) >= SummaryLength /\ U8(b, 0) = 2 /\ U8(b, 88) = 3 /\ ValidCode(U8(b, 52)) /\ ValidCode(U8(b, 53))
SummaryBad(b, ymd, rec) ==
  {SummaryFields[i][1] : i \in {j \in DOMAIN SummaryFields : rec[SummaryFields[j][1]] # Field(b, SummaryFields[j])}}
  \cup (IF rec["date"] # ymd THEN {"date"} ELSE {})
=============================================================================
