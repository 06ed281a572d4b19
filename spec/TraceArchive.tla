---------------------------- MODULE TraceArchive ----------------------------
(* Recorded exports, and the table another connection saw after each.          *)
EXTENDS TraceLib, Archive

\* one step: which rows are there, and what they hold
StepBad(c, table, k) ==
  LET fits == \A a \in DOMAIN Numbers : Missing(k.record[a]) \/ ColumnOf(c.overrides, a) = DoNotInsert \/ Fits(Numbers[a], k.record[a][1])
      known == Stored(table, k.record)
      after == IF known \/ (~fits /\ k.out # "ok") THEN table ELSE Export(table, k.record)
      out == IF known THEN k.out = "error" ELSE fits => k.out = "ok"
  IN [table |-> after,
      bad |-> Clause(out, "outcome") \cup Clause(Len(k.rows) = Len(after), "number_of_rows")
              \cup (IF Len(k.rows) # Len(after) THEN {}
                    ELSE UNION {WrongCells(after[j], c.zone, c.overrides, k.rows[j]) : j \in DOMAIN after})
              \cup Clause(k.elsewhere = 0, "other_tables")]

RECURSIVE Run(_, _, _, _)
Run(c, j, table, bad) == IF j > Len(c.steps) THEN bad
                         ELSE LET r == StepBad(c, table, c.steps[j]) IN Run(c, j + 1, r.table, bad \cup r.bad)

UtcOnly(c) == LET k == c.steps[1] IN
  Clause(k.out = "ok", "outcome") \cup
  (IF Len(k.rows) # 1 THEN {"number_of_rows"} ELSE Clause(CellOk(k.record, c.zone, "timestamp_utc", k.rows[1].timestamp_utc), "timestamp_utc")
   \cup Clause(CellOk(k.record, c.zone, "date", k.rows[1].timestamp_station), "timestamp_station"))

Bad(c) == IF Prop = "C25" THEN UtcOnly(c) ELSE Run(c, 1, <<>>, {})

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
