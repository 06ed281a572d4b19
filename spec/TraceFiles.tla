----------------------------- MODULE TraceFiles -----------------------------
(* Recorded imports of database files against Files.                          *)
EXTENDS TraceLib, Files

ImportBad(c) ==
  LET b == c.b steps == RecordSteps(b) summaries == SummarySteps(b) IN
  UNION {WlkBad(Segment(b, steps[i][3], WlkLength), <<c.ym[1], c.ym[2], steps[i][2]>>, c.records[i]) :
         i \in DOMAIN steps \cap DOMAIN c.records}
  \cup Clause(Len(c.records) = Len(steps), "number_of_records")
  \cup Clause([i \in DOMAIN c.summaries |-> c.summaries[i].day] = [i \in DOMAIN summaries |-> summaries[i][2]], "days_with_summary")
  \cup UNION {SummaryBad(Segment(b, summaries[i][3], SummaryLength), <<c.ym[1], c.ym[2], summaries[i][2]>>, c.summaries[i].rec) :
              i \in DOMAIN summaries \cap DOMAIN c.summaries}
  \cup Clause(\A day \in 1..31 : c.daily[day] = PositionsOf(b, day), "daily_records")
  \cup Clause(c.daily[32] = <<>>, "records_of_no_day")
  \cup Clause(c.version = SubSeq(b, 1, 16), "version")
  \cup Clause(c.count = <<U16(b, 18), U16(b, 16)>>, "record_count")
  \cup Clause(\A day \in 0..31 : c.counts[day + 1] = Count(b, day), "day_counts")
  \cup Clause(\A day \in 0..31 : c.starts[day + 1] = <<U16(b, 24 + 6 * day), U16(b, 22 + 6 * day)>>, "day_starts")

FileBad(c) ==
  Clause(c.kept, "earlier_import") \cup
  IF FileSound(c.b, c.ym)
  THEN IF c.out # "ok" THEN {"rejected_sound_file"} ELSE ImportBad(c)
  ELSE Clause(c.out \notin {"ok", "hang"}, "accepted_unsound_file")

NameBad(c) ==
  IF NameSound(c.name)
  THEN Clause(c.out = "ok", "rejected_name") \cup Clause(c.ym = NameMonth(c.name), "month_of_name")
  ELSE Clause(c.out \notin {"ok", "hang"}, "accepted_name")

Bad(c) == CASE c.op = "file" -> FileBad(c) [] c.op = "name" -> NameBad(c)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
