------------------------------- MODULE Updates -------------------------------
(* Updates sent to Weather Underground.  A record is a function from field      *)
(* names to optional values (numbers in thousandths); queue holds the records   *)
(* sent by an exporter, newest first.                                           *)
EXTENDS Zones, FiniteSets

GustWindow == 25
AverageWindow == 49
QueueLength == 50
Push(queue, r) == SubSeq(<<r>> \o queue, 1, IF Len(queue) + 1 < QueueLength THEN Len(queue) + 1 ELSE QueueLength)

SimpleMap == <<
  <<"windspeedmph", "wind_speed">>, <<"winddir", "wind_direction_prevailing_degrees">>, <<"windgustmph", "wind_speed_high">>,
  <<"windgustdir", "wind_direction_speed_high_degrees">>, <<"humidity", "humidity_outside">>, <<"tempf", "temperature_outside">>,
  <<"baromin", "barometric_pressure">>, <<"solarradiation", "solar_radiation">>, <<"UV", "uv_index">>,
  <<"indoortempf", "temperature_inside">>, <<"indoorhumidity", "humidity_inside">>  >>
RapidMap == <<
  <<"windspeedmph", "wind_speed">>, <<"winddir", "wind_direction_degrees">>, <<"windspdmph_avg2m", "wind_speed_2_minute_average">>,
  <<"windgustmph_10m", "wind_speed_10_minute_gust">>, <<"windgustdir_10m", "wind_speed_10_minute_gust_direction_degrees">>,
  <<"humidity", "humidity_outside">>, <<"dewptf", "dew_point">>, <<"tempf", "temperature_outside">>, <<"rainin", "rain_amount_1_hour">>,
  <<"dailyrainin", "rain_amount_today">>, <<"baromin", "barometric_pressure">>, <<"solarradiation", "solar_radiation">>,
  <<"UV", "uv_index">>, <<"indoortempf", "temperature_inside">>, <<"indoorhumidity", "humidity_inside">>  >>

Newest(queue, k) == SubSeq(queue, 1, IF Len(queue) < k THEN Len(queue) ELSE k)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* the gust: speed and direction, each <<>> if there is none
Gust(queue) ==
  LET w == Newest(queue, GustWindow)
      with == {k \in DOMAIN w : w[k].wind_speed # <<>>}
  IN IF with = {} THEN [speed |-> <<>>, direction |-> <<>>]
     ELSE LET best == Max({w[k].wind_speed[1] : k \in with})
              k == Min({j \in with : w[j].wind_speed[1] = best})
          IN [speed |-> <<best>>, direction |-> w[k].wind_direction_degrees]

\* directions (thousandths of a degree) the average may have: within the smallest arc holding all, if that is below 180 degrees
Turn == 360000
Directions(queue) == LET w == Newest(queue, AverageWindow) IN
                     {w[k].wind_direction_degrees[1] % Turn : k \in {j \in DOMAIN w : w[j].wind_direction_degrees # <<>>}}
\* the arc is given by its start and its length, clockwise; rounding to a tenth of a degree is tolerated
Arcs(D) == {<<a, Max({(b - a) % Turn : b \in D})>> : a \in D}
AverageOk(queue, v) ==
  LET D == Directions(queue) IN
  IF D = {} THEN v = <<>>
  ELSE /\ v # <<>> /\ v[1] >= 0 /\ v[1] <= Turn
       /\ \A arc \in Arcs(D) : arc[2] < Turn \div 2 => ((v[1] - arc[1] + 50) % Turn) <= arc[2] + 100

\* the answer: success exactly with a 2xx status and the word
Succeeds(answer) == answer.status \in 200..299 /\ answer.text = "success"
=============================================================================
