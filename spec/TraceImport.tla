----------------------------- MODULE TraceImport -----------------------------
(* Recorded histories of database files being imported and exported, days       *)
(* recalculated and rain detected; tables as another connection saw them.       *)
(* Rows are judged against the bytes of the files; summaries and rain events    *)
(* against the rows.                                                            *)
EXTENDS TraceLib, Import, Files, Summaries
ZZ == INSTANCE Zones
RR == INSTANCE Rain

\* --------- what a record's bytes must be stored as
Nearest(unit, v, x) == 2 * Abs(v * unit - x) <= unit         \* v in units of the column, x in parts of it
\* v * unit against q in 10^-4 and r in 10^-8 inch
NearestInches(unit, v, x) == LET d == v * unit - x[1] IN d \in (-unit)..(2 * unit) /\ 2 * Abs(d * 10000 - x[2]) <= unit * 10000
Same == {"temperature_outside", "temperature_outside_high", "temperature_outside_low", "temperature_inside", "barometric_pressure",
         "solar_radiation", "solar_radiation_high", "uv_index", "uv_index_high", "minutes_covered"}
Tenth == {"humidity_outside", "humidity_inside", "wind_speed", "wind_speed_high"}
RowBad(b, ymd, row) ==
  LET raw(name) == LET f == CHOOSE j \in DOMAIN WlkFields : WlkFields[j][1] = name IN Field(b, WlkFields[f])
      collector == CHOOSE x \in WlkCollector(b) : TRUE
      rate == S16(b, 22)
      date == WlkDate(b, ymd)
  IN {column \in Same : row[column] # raw(column)}
     \cup {column \in Tenth : IF raw(column) = <<>> THEN row[column] # <<>> ELSE row[column] = <<>> \/ ~Nearest(10, row[column][1], raw(column)[1])}
     \cup Clause(row.wind_speed_direction = raw("wind_direction_prevailing"), "wind_speed_direction")
     \cup Clause(row.wind_speed_high_direction = raw("wind_direction_speed_high"), "wind_speed_high_direction")
     \cup Clause(row.rain_clicks = <<WlkClicks(b)>>, "rain_clicks")
     \cup Clause(row.rain_click_rate_high = <<rate>>, "rain_click_rate_high")
     \cup Clause(row.rain_total # <<>> /\ NearestInches(10, row.rain_total[1], Inches(collector, WlkClicks(b))), "rain_total")
     \cup Clause(row.rain_rate_high # <<>> /\ NearestInches(100, row.rain_rate_high[1], Inches(collector, rate)), "rain_rate_high")
     \cup Clause(row.evapotranspiration = <<>>, "evapotranspiration")
     \cup Clause(row.timestamp_weatherlink = Pack(date), "timestamp_weatherlink")
     \cup Clause(row.timestamp_station = <<MinuteNumber(date)>>, "timestamp_station")
     \cup Clause(<<row.summary_year, row.summary_month, row.summary_day>> = <<<<date[1]>>, <<date[2]>>, <<date[3]>>>>, "summary_date")
     \cup Clause(row.timestamp_utc # <<>> /\ (date[1] < 2038 => row.timestamp_utc[1] \in ZZ!ToUtc("America/Chicago", date)), "timestamp_utc")

\* --------- the files of a case
RecordsOf(c) == [f \in DOMAIN c.files |-> RecordSteps(c.files[f].b)]
YmdOf(c, all, r) == <<c.files[r[1]].ym[1], c.files[r[1]].ym[2], all[r[1]][r[2]][2]>>
BytesOf(c, all, r) == Segment(c.files[r[1]].b, all[r[1]][r[2]][3], WlkLength)
StampsOf(c, all) == [r \in UNION {{<<f, k>> : k \in DOMAIN all[f]} : f \in DOMAIN all} |-> Pack(WlkDate(BytesOf(c, all, r), YmdOf(c, all, r)))]

\* --------- the archive as Summaries and Rain see it
RowsAt(c, table) == {c.pool[j] : j \in Range(table)}
ArchiveOf(rows) == [x \in Columns |-> {<<row.timestamp_station[1], row[x][1]>> : row \in {q \in rows : q[x] # <<>>}}]
RainOf(rows) == {<<row.timestamp_station[1], row.rain_total, IF row.rain_rate_high = <<>> THEN 0 ELSE row.rain_rate_high[1]>> : row \in rows}
SummariesAt(c, table) == {c.summaries[j] : j \in Range(table)}

Recalculated(c, rows, s, before) ==
  LET after == SummariesAt(c, s.summaries) touched == Touched(Range(s.dates))
      shape == Clause(s.out = "ok", "recalculation") \cup Clause(Len(s.summaries) = Cardinality(Keys(after)), "one_row_per_period")
               \cup Clause(Keys(after) = Keys(before) \cup touched, "periods_with_a_row")
  IN IF shape # {} THEN shape
     ELSE Clause(\A r \in before : r.key \in touched \/ r \in after, "other_periods")
          \cup UNION {WrongRow(ArchiveOf(rows), before, after, k) : k \in touched}
Detected(rows, s) ==
  LET records == RainOf(rows) IN
  Clause(s.out = "ok" /\ s.counts = <<RR!Finished(records), RR!Ongoing(records)>>, "detection")
  \cup Clause(RR!EventsOk(records, s.events), "events")
  \* no rain is lost or counted twice
  \cup Clause(FoldSet(LAMBDA j, n : s.events[j].total + n, 0, DOMAIN s.events) = FoldSet(LAMBDA r, n : r[2][1] + n, 0, {q \in records : q[2] # <<>>}),
              "rain_total_of_events")

\* the rows that came with a step are those of the records that it stored
Came(c, all, stamps, before, after, stored, stored2) ==
  LET new == Range(after) \ Range(before) IN
  IF ~(Range(before) \subseteq Range(after)) THEN {"rows_kept"}
  ELSE IF Len(after) # Cardinality(stored2) \/ Cardinality(Range(after)) # Len(after) THEN {"number_of_rows"}
  ELSE UNION {LET mine == {j \in new : c.pool[j].timestamp_weatherlink = stamps[r]} IN
              IF Cardinality(mine) # 1 THEN {"row_of_record"}
              ELSE RowBad(BytesOf(c, all, r), YmdOf(c, all, r), c.pool[CHOOSE j \in mine : TRUE]) : r \in stored2 \ stored}

RECURSIVE Run(_, _, _, _, _)
Run(c, all, stamps, j, st) ==
  IF j > Len(c.steps) \/ st.bad # {} THEN st.bad
  ELSE
  LET s == c.steps[j] IN
  CASE s.do = "open" ->
         Run(c, all, stamps, j + 1, [st EXCEPT !.client[s.who] = <<s.file, 1>>,
               !.bad = Clause(s.out = "ok" /\ s.count = Len(all[s.file]), "import") \cup Clause(s.table = st.table, "table")])
    [] s.do = "put" ->
         LET f == st.client[s.who][1] k == st.client[s.who][2]
             p == PutAll(st.stored, stamps, f, k, Len(s.outs))
         IN Run(c, all, stamps, j + 1, [st EXCEPT !.client[s.who] = <<f, k + Len(s.outs)>>, !.stored = p.stored, !.table = s.table,
               !.bad = Clause([x \in DOMAIN s.outs |-> s.outs[x] = "ok"] = p.ok /\ "hang" \notin Range(s.outs), "export_outcome")
                       \cup Came(c, all, stamps, st.table, s.table, st.stored, p.stored)])
    [] s.do = "crash" -> Run(c, all, stamps, j + 1, [st EXCEPT !.bad = Clause(s.table = st.table, "table")])
    [] s.do = "recalculate" ->
         Run(c, all, stamps, j + 1, [st EXCEPT !.summaries = SummariesAt(c, s.summaries),
               !.bad = Clause(s.table = st.table, "table") \cup Recalculated(c, RowsAt(c, st.table), s, st.summaries)])
    [] s.do = "detect" ->
         Run(c, all, stamps, j + 1, [st EXCEPT !.bad = Clause(s.table = st.table, "table") \cup Detected(RowsAt(c, st.table), s)])
Bad(c) ==
  LET all == RecordsOf(c) IN
  IF \E f \in DOMAIN c.files : ~FileSound(c.files[f].b, c.files[f].ym) THEN {"generated_file"}
  ELSE Run(c, all, StampsOf(c, all), 1, [stored |-> {}, client |-> [w \in 1..2 |-> <<>>], table |-> <<>>, summaries |-> {}, bad |-> {}])

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
