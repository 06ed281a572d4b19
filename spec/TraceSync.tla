------------------------------ MODULE TraceSync ------------------------------
(* Recorded histories of synchronisation.  Records are numbered as they        *)
(* arrive at the service; rows are <<time stamp, version>>, and a record comes  *)
(* with the version of the row it makes when stored by itself.                  *)
EXTENDS TraceLib, Sync, Codec, Zones

\* what a record's bytes must be stored as
RowBad(b, minutes, row) ==
  LET raw(name) == LET f == CHOOSE j \in DOMAIN DownloadFields : DownloadFields[j][1] = name IN Field(b, DownloadFields[f])
      scaled(v, n) == IF v = <<>> THEN <<>> ELSE <<n * v[1]>>
      same == {"temperature_outside", "temperature_outside_high", "temperature_outside_low", "temperature_inside", "barometric_pressure",
               "humidity_inside", "humidity_outside", "wind_speed", "wind_speed_high", "solar_radiation", "solar_radiation_high", "uv_index",
               "uv_index_high", "evapotranspiration"}
      date == Unpack(DownloadStamp(b))
  IN {column \in same : row[column] # raw(column)}
     \cup Clause(row.rain_clicks = raw("rain_amount_clicks"), "rain_clicks")
     \cup Clause(row.rain_click_rate_high = raw("rain_rate_clicks"), "rain_click_rate_high")
     \cup Clause(row.rain_total = scaled(raw("rain_amount_clicks"), 10), "rain_total")
     \cup Clause(row.rain_rate_high = raw("rain_rate_clicks"), "rain_rate_high")
     \cup Clause(row.wind_speed_direction = raw("wind_direction_prevailing"), "wind_speed_direction")
     \cup Clause(row.wind_speed_high_direction = raw("wind_direction_speed_high"), "wind_speed_high_direction")
     \cup Clause(row.minutes_covered = <<minutes>>, "minutes_covered")
     \cup Clause(row.timestamp_weatherlink = DownloadStamp(b), "timestamp_weatherlink")
     \cup Clause(row.timestamp_station = <<MinuteNumber(date)>>, "timestamp_station")
     \cup Clause(<<row.summary_year, row.summary_month, row.summary_day>> = <<<<date[1]>>, <<date[2]>>, <<date[3]>>>>, "summary_date")
     \cup Clause(row.timestamp_utc # <<>> /\ (date[1] < 2038 => row.timestamp_utc[1] \in ToUtc("America/Chicago", date)), "timestamp_utc")

Arrivals(c) == SelectSeq(c.steps, LAMBDA s : s.do = "arrive")
Idle == [at |-> "idle", from |-> 0, stamp |-> <<0, 0>>, queue |-> <<>>]

\* older records that came from elsewhere: a sequence of [stamp, alone, minutes before the first arrival], the latest last
RECURSIVE Insert(_, _)
Insert(old, r) == IF old = <<>> THEN <<r>> ELSE IF Head(old).minutes > r.minutes THEN <<Head(old)>> \o Insert(Tail(old), r) ELSE <<r>> \o old
\* stamps of a set of records in order; records are numbered in the order of time
Rows(arrived, stored) == LET n == Len(arrived) IN
  SelectSeq([k \in 1..n |-> <<k, arrived[k].stamp, arrived[k].alone>>], LAMBDA r : r[1] \in stored)
Shown(rows) == [k \in DOMAIN rows |-> <<rows[k][2], rows[k][3]>>]

Old(old) == [k \in DOMAIN old |-> <<old[k].stamp, old[k].alone>>]

RECURSIVE Run(_, _, _, _, _, _, _, _)
Run(c, arrived, j, n, stored, clients, old, bad) ==
  IF bad # {} THEN bad         \* from there on the code and the specification are in different states
  ELSE IF j > Len(c.steps)
  THEN bad \cup Clause(stored = 1..n, "everything_stored")
           \cup (IF Len(c.table) # Len(old) + n THEN {"rows"}
                 ELSE UNION {RowBad(arrived[k].b, c.interval, c.table[Len(old) + k]) : k \in 1..n})
  ELSE
  LET s == c.steps[j]
      me == IF s.do = "arrive" THEN Idle ELSE clients[s.who]
      old2 == IF s.do = "bring" THEN Insert(old, s) ELSE old
      stampOf(k) == IF k > 0 THEN arrived[k].stamp ELSE IF old # <<>> THEN old[Len(old)].stamp ELSE <<0, 0>>
      newest == Newest(stored)
      answered == Answer(n, me.from, Most(s.fault))
      head == IF me.queue = <<>> THEN 0 ELSE Head(me.queue)
      stored2 == IF s.do = "store" /\ head # 0 /\ IsStored(stored, head, s.fault) THEN stored \cup {head} ELSE stored
      me2 == CASE s.do = "query" -> IF s.fault = "" THEN [Idle EXCEPT !.at = "asked", !.from = newest, !.stamp = stampOf(newest)] ELSE Idle
               [] s.do = "fetch" -> IF FetchOk(s.fault) /\ answered # <<>> THEN [me EXCEPT !.at = "got", !.queue = answered] ELSE Idle
               [] s.do = "store" -> IF ~StoreOk(stored, head, s.fault) \/ Len(me.queue) = 1 \/ head = 0 THEN Idle ELSE [me EXCEPT !.queue = Tail(@)]
               [] s.do = "bring" -> me
               [] OTHER -> Idle
      found == CASE s.do = "query" -> Clause((s.out = "ok") = (s.fault = ""), "query_outcome")
                                      \cup Clause(s.fault = "" => s.newest = (IF newest = 0 /\ old = <<>> THEN <<>> ELSE <<stampOf(newest)>>), "newest")
                 [] s.do = "fetch" -> Clause((s.out = "ok") = FetchOk(s.fault), "download_outcome")
                                      \cup Clause(FetchOk(s.fault) => s.got = [k \in DOMAIN answered |-> stampOf(answered[k])], "downloaded")
                                      \cup Clause(\A k \in DOMAIN s.asked : s.asked[k][2] = me.stamp \/ (me.stamp = <<0, 0>> /\ s.asked[k][2] = <<33, 0>>),
                                                  "asked")
                 [] s.do = "store" -> Clause(head # 0 /\ s.stamp = stampOf(head), "order")
                                      \cup Clause((s.out = "ok") = StoreOk(stored, head, s.fault), "export_outcome")
                 [] s.do = "bring" -> Clause(s.out = "ok" /\ s.alone # BAD, "export_outcome")
                 [] OTHER -> {}
      n2 == IF s.do = "arrive" THEN n + 1 ELSE n
      sound == s.do = "arrive" => (arrived[n2].alone # BAD /\ (n = 0 \/ arrived[n].stamp # arrived[n2].stamp))
  IN Run(c, arrived, j + 1, n2, stored2, IF s.do = "arrive" THEN clients ELSE [clients EXCEPT ![s.who] = me2], old2,
         bad \cup found \cup Clause(sound, "alone") \cup Clause(s.after = Old(old2) \o Shown(Rows(arrived, stored2)), "table"))
Bad(c) == Run(c, Arrivals(c), 1, 0, {}, [w \in 1..2 |-> Idle], <<>>, {})

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
