------------------------------- MODULE MCRain -------------------------------
(* Detection as a procedure that resumes after the newest finished event and   *)
(* looks at the records in batches, over all ways records arrive in time order *)
(* with runs in between; its events must always be those of the records.       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS Depth, Batch, Out, GapSteps, Kinds

R == INSTANCE Rain

VARIABLES records, events, last, history, counts
vars == <<records, events, last, history, counts>>

First(set) == CHOOSE r \in set : \A q \in set : r[1] <= q[1]
RECURSIVE FirstN(_, _)
FirstN(set, n) == IF set = {} \/ n = 0 THEN <<>> ELSE LET r == First(set) IN <<r>> \o FirstN(set \ {r}, n - 1)

\* one event, read batch by batch: [rain: its records, seen: the last record looked at]
RECURSIVE Scan(_, _, _)
RECURSIVE Look(_, _)
\* batch: what is left of it; result: whether to go on
Look(batch, e) ==
  IF batch = <<>> THEN [e |-> e, more |-> TRUE]
  ELSE LET r == Head(batch)
           seen == [e EXCEPT !.seen = r[1]]
       IN IF r[1] - R!Final(e.rain) > R!Gap THEN [e |-> seen, more |-> FALSE]
          ELSE Look(Tail(batch), IF R!Rainy({r}) = {} THEN seen ELSE [seen EXCEPT !.rain = e.rain \cup {r}])
Scan(recs, e, n) ==
  LET batch == FirstN(R!After(recs, e.seen), Batch) IN
  IF batch = <<>> THEN e ELSE LET x == Look(batch, e) IN IF x.more THEN Scan(recs, x.e, n + 1) ELSE x.e

Row(g, over) == [start |-> R!Start(g), end |-> IF over THEN <<R!Final(g)>> ELSE <<>>, peak |-> R!TopTime(g), total |-> R!Total(g),
                 high |-> <<R!TopRate(g)>>, average |-> <<(2 * R!Rates(g) + Cardinality(g)) \div (2 * Cardinality(g))>>]
\* insert, or update the event with the same start
Store(table, row) == IF \E k \in DOMAIN table : table[k].start = row.start
                     THEN [k \in DOMAIN table |-> IF table[k].start = row.start THEN row ELSE table[k]] ELSE Append(table, row)
RECURSIVE Detect(_, _, _)
Detect(recs, table, found) ==
  LET ends == {table[k].end[1] : k \in {j \in DOMAIN table : table[j].end # <<>>}}
      left == R!Rainy(IF ends = {} THEN recs ELSE R!After(recs, CHOOSE t \in ends : \A u \in ends : t >= u))
  IN IF left = {} THEN [table |-> table, found |-> found, ongoing |-> 0]
     ELSE LET e == Scan(recs, [rain |-> {First(left)}, seen |-> First(left)[1]], 0)
              over == e.seen - R!Final(e.rain) >= R!Gap
              next == Store(table, Row(e.rain, over))
          IN IF over THEN Detect(recs, next, found + 1) ELSE [table |-> next, found |-> found, ongoing |-> 1]

Content(kind) == CASE kind = "rain" -> <<<<10>>, 100>> [] kind = "pour" -> <<<<25>>, 301>> [] kind = "dry" -> <<<<0>>, 0>> [] kind = "null" -> <<<<>>, 0>>
Init == records = {} /\ events = <<>> /\ last = 0 /\ history = <<>> /\ counts = <<0, 0, 0>>
Arrive(gap, kind) == /\ last' = last + gap /\ records' = records \cup {<<last + gap>> \o Content(kind)}
                     /\ history' = Append(history, <<"record", gap, kind>>) /\ UNCHANGED <<events, counts>>
Run == LET d == Detect(records, events, 0) IN
       /\ events' = d.table /\ counts' = <<d.found, d.ongoing, counts[3] + d.found>> /\ history' = Append(history, <<"detect">>)
       /\ UNCHANGED <<records, last>>
Next == Len(history) < Depth /\ (Run \/ \E gap \in GapSteps, kind \in Kinds : Arrive(gap, kind))

JustRun == history # <<>> /\ history[Len(history)] = <<"detect">>
\* after a run: exactly the events of the records, however they arrived; the counts; and running again changes nothing
Right == JustRun => /\ R!EventsOk(records, events)
                    /\ counts[2] = R!Ongoing(records) /\ counts[3] = R!Finished(records)
                    /\ Detect(records, events, 0) = [table |-> events, found |-> 0, ongoing |-> counts[2]]
                    /\ Detect(records, <<>>, 0).table = events
\* every record with rain is in exactly one event, events do not overlap, and neighbours share one exactly within the gap
Partition == LET gs == R!Groups(records) rain == R!Rainy(records) IN
  /\ UNION gs = rain /\ \A g, h \in gs : g # h => g \cap h = {} /\ (R!Final(g) < R!Start(h) \/ R!Final(h) < R!Start(g))
  /\ \A a, b \in rain : (a[1] < b[1] /\ ~(\E x \in rain : a[1] < x[1] /\ x[1] < b[1])) =>
       ((\E g \in gs : {a, b} \subseteq g) <=> b[1] - a[1] <= R!Gap)
\* the one-pass definition is the same
InTimeOrder == FirstN(records, Cardinality(records))
OnePass == LET es == R!FoldLeft(R!Scanned, <<>>, InTimeOrder) IN
  /\ R!EventsAre(es, last, events) <=> R!EventsOk(records, events)
  /\ R!FinishedOf(es, last) = R!Finished(records) /\ Len(es) = Cardinality(R!Groups(records))
\* a finished event never changes
Kept == [][\A k \in DOMAIN events : events[k].end # <<>> => events'[k] = events[k]]_vars
View == <<records, events, counts, Len(history), JustRun>>

GenNext == /\ Len(history) < Depth /\ UNCHANGED <<records, events, last, counts>>
           /\ \/ \E gap \in GapSteps, kind \in Kinds : history' = Append(history, <<"record", gap, kind>>)
              \/ history # <<>> /\ history[Len(history)] # <<"detect">> /\ history' = Append(history, <<"detect">>)
           /\ (Out /\ Len(history') = Depth) => PrintT("BEHAVIOUR " \o ToJson(history'))
=============================================================================
