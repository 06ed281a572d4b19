------------------------------ MODULE TraceLive ------------------------------
(* Recorded live weather: the packets a console sent, as bytes, and the         *)
(* requests that reached the service, against Live.                             *)
EXTENDS Requests, Codec

\* one thousandth of the field's unit is 1
Thousandths == [barometric_pressure |-> 1, temperature_inside |-> 100, humidity_inside |-> 1000, temperature_outside |-> 100,
                wind_speed |-> 1000, wind_direction_degrees |-> 1000, wind_speed_2_minute_average |-> 100, wind_speed_10_minute_gust |-> 100,
                wind_speed_10_minute_gust_direction_degrees |-> 1000, humidity_outside |-> 1000, dew_point |-> 1000, uv_index |-> 100,
                solar_radiation |-> 1000, rain_amount_1_hour |-> 10, rain_amount_today |-> 10]
RawOf(b, name) == IF \E j \in DOMAIN Loop2Rain : Loop2Rain[j][1] = name
                  THEN LET j == CHOOSE j \in DOMAIN Loop2Rain : Loop2Rain[j][1] = name IN Opt(U16(b, Loop2Rain[j][2]), <<0>>)
                  ELSE LET j == CHOOSE j \in DOMAIN Loop2Fields : Loop2Fields[j][1] = name IN Field(b, Loop2Fields[j])
Measured(b) == [name \in DOMAIN Thousandths |-> LET v == RawOf(b, name) IN IF v = <<>> THEN <<>> ELSE <<v[1] * Thousandths[name]>>]

\* an update for packet b
Update(u, b) == [x \in DOMAIN u \cup {"record", "dewpoint"} |-> IF x = "record" THEN Measured(b) ELSE IF x = "dewpoint" THEN <<>> ELSE u[x]]
UpdateBad(c, queue, u, b) == LET k == Update(u, b) q == Push(queue, k.record) IN RequestBad(c, k) \cup UtcBad(c, k) \cup RecentBad(q, k)

LV == INSTANCE Live WITH last <- 0, held <- <<>>, asked <- <<>>, lost <- {}, session <- [on |-> FALSE], ready <- TRUE
RECURSIVE Handed(_, _, _, _, _)
Handed(c, s, j, queue, bad) ==
  IF j > Len(s.updates) THEN [queue |-> queue, bad |-> bad]
  ELSE Handed(c, s, j + 1, Push(queue, Measured(s.packets[j])), bad \cup UpdateBad(c, queue, s.updates[j], s.packets[j]))

RECURSIVE Run(_, _, _, _, _)
Run(c, j, held, queue, bad) ==
  IF j > Len(c.steps) \/ "packets" \in bad \/ "handed_over" \in bad THEN bad
  ELSE
  LET s == c.steps[j] IN
  CASE s.do = "poll" -> Run(c, j + 1, held \o s.packets, queue, bad \cup Clause(s.out = "ok" /\ s.count = s.size, "packets"))
    [] s.do = "send" -> Run(c, j + 1, Tail(held), Push(queue, Measured(Head(held))), bad \cup UpdateBad(c, queue, s.update, Head(held)))
    [] s.do = "drop" -> Run(c, j + 1, <<>>, queue, bad)
    [] s.do = "background" ->
         IF s.out # "ok" \/ Len(s.updates) \notin LV!Delivered(s.size, s.how, s.at) THEN bad \cup {"handed_over"}
         ELSE LET h == Handed(c, s, 1, queue, bad) IN Run(c, j + 1, held, h.queue, h.bad)
Bad(c) == Run(c, 1, <<>>, <<>>, {})

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
