--------------------------- MODULE TraceSummaries ---------------------------
(* Recorded histories of archive records coming in and dates recalculated,     *)
(* with the summary table another connection saw after each recalculation.     *)
(* A table is a sequence of indices into the case's pool of different rows.    *)
EXTENDS TraceLib, Summaries

RowsIn(c, table) == {c.pool[j] : j \in Range(table)}
Grow(archive, columns) == [x \in Columns |-> archive[x] \cup Range(columns[x])]
DaysOf(columns) == {p[1] \div 1440 : p \in Range(columns["minutes_covered"])}
DatesOf(step) == Range(step.dates)

Recalculated(c, s, step) ==
  LET before == RowsIn(c, s.table) after == RowsIn(c, step.table)
      dates == DatesOf(step) touched == Touched(dates)
      fresh == s.fresh \cup {DayNumber(d[1], d[2], d[3]) : d \in dates}
      judged == {k \in touched : Prop = "C28" \/ (Prop = "C26") = (k[1] = "DAILY")}
      shape == Clause(step.out = "ok", "outcome")
               \cup Clause(Len(step.table) = Cardinality(Keys(after)), "one_row_per_period")
               \cup Clause(Keys(after) = Keys(before) \cup touched, "periods_with_a_row")
               \cup Clause(step.archive_before = step.archive_after, "archive_unchanged")
  IN IF shape # {} THEN [s |-> [s EXCEPT !.table = step.table, !.fresh = fresh, !.touched = touched], bad |-> shape]
     ELSE [s |-> [s EXCEPT !.table = step.table, !.fresh = fresh, !.touched = touched],
           bad |-> Clause(\A r \in before : r.key \in touched \/ r \in after, "other_periods")
                   \cup Clause((~s.news /\ touched \subseteq s.touched) => before = after, "repetition")
                   \cup UNION {(IF Prop = "C28" THEN WrongTimes(Cut(s.archive, k), k, AllFresh(s.archive, fresh, k), RowOf(after, k).v)
                                ELSE WrongRow(s.archive, before, after, k)) : k \in judged}]

RECURSIVE Run(_, _, _, _)
Run(c, j, s, bad) ==
  IF j > Len(c.steps) THEN bad
  ELSE LET step == c.steps[j] IN
       IF step.op = "records"
       THEN Run(c, j + 1, [s EXCEPT !.archive = Grow(s.archive, step.columns), !.fresh = s.fresh \ DaysOf(step.columns), !.news = TRUE],
                bad \cup Clause(step.out = "ok", "insert") \cup Clause(step.table = s.table, "insert"))
       ELSE LET r == Recalculated(c, s, step) IN Run(c, j + 1, [r.s EXCEPT !.news = FALSE], bad \cup r.bad)

Bad(c) == Run(c, 1, [archive |-> [x \in Columns |-> {}], table |-> <<>>, fresh |-> {}, touched |-> {}, news |-> TRUE], {})

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
