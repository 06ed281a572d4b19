------------------------------ MODULE TraceRain ------------------------------
(* Recorded histories of records coming in and rain detection, with the events *)
(* another connection saw after each.                                          *)
EXTENDS TraceLib, Rain

\* an event keeps its row as long as it goes on and after
InPlace(before, after) == \A j \in DOMAIN before : \E k \in DOMAIN after : after[k].id = before[j].id /\ after[k].start = before[j].start

RECURSIVE Run(_, _, _, _, _, _)
Run(c, j, es, now, events, bad) ==
  IF j > Len(c.steps) THEN bad
  ELSE LET s == c.steps[j] IN
       IF s.op = "records"
       THEN Run(c, j + 1, FoldLeft(Scanned, es, s.records), s.records[Len(s.records)][1], events, bad \cup Clause(s.events = events, "arrival"))
       ELSE Run(c, j + 1, es, now, s.events, bad
                \cup (IF s.out # "ok" THEN {"outcome"} ELSE
                      Clause(s.counts[1] = FinishedOf(es, now) - Cardinality({k \in DOMAIN events : events[k].end # <<>>}), "found")
                      \cup Clause(s.counts[2] = Len(es) - FinishedOf(es, now), "ongoing"))
                \cup Clause(Len(s.events) = Len(es), "number_of_events")
                \cup Clause(EventsAre(es, now, s.events), "events")
                \cup Clause(InPlace(events, s.events), "in_place")
                \cup Clause(s.archive_before = s.archive_after, "archive_unchanged"))
Bad(c) == Run(c, 1, <<>>, 0, <<>>, {})

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
