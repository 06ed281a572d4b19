-------------------------------- MODULE Rain --------------------------------
(* Rain events.  A record is <<minute, rain, rate>>: rain is <<>> or <<n>> in   *)
(* thousandths of an inch, rate in hundredths of an inch per hour.             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Gap == 180      \* minutes: rain further apart belongs to different events

Rainy(records) == {r \in records : r[2] # <<>> /\ r[2][1] > 0}
\* rain after which nothing, or nothing for more than three hours, falls: the last of an event
Before(records, t) == {r \in records : r[1] < t}
After(records, t) == {r \in records : r[1] > t}
Begins(rain, r) == \A q \in Before(rain, r[1]) : r[1] - q[1] > Gap
Ends(rain, r) == \A q \in After(rain, r[1]) : q[1] - r[1] > Gap
\* the events of the records, each as a set of rain records
Groups(records) ==
  LET rain == Rainy(records)
      ends == {r[1] : r \in {x \in rain : Ends(rain, x)}}
  IN {LET e == CHOOSE x \in ends : x >= b /\ \A y \in ends : y >= b => x <= y IN {r \in rain : b <= r[1] /\ r[1] <= e} :
        b \in {r[1] : r \in {x \in rain : Begins(rain, x)}}}
Start(g) == CHOOSE t \in {r[1] : r \in g} : \A r \in g : t <= r[1]
Final(g) == CHOOSE t \in {r[1] : r \in g} : \A r \in g : t >= r[1]
Total(g) == FoldSet(LAMBDA r, s : r[2][1] + s, 0, g)
Rates(g) == FoldSet(LAMBDA r, s : r[3] + s, 0, g)
TopRate(g) == CHOOSE v \in {r[3] : r \in g} : \A r \in g : v >= r[3]
TopTime(g) == CHOOSE t \in {r[1] : r \in {q \in g : q[3] = TopRate(g)}} : \A r \in {q \in g : q[3] = TopRate(g)} : t <= r[1]
\* it is over once a record comes three hours or more after its last rain
Over(records, g) == \E r \in records : r[1] - Final(g) >= Gap
Abs(x) == IF x < 0 THEN -x ELSE x
\* an event as stored: start, end, time of the highest rate, total, average rate, highest rate
EventOk(records, g, e) ==
  /\ e.start = Start(g) /\ e.end = (IF Over(records, g) THEN <<Final(g)>> ELSE <<>>) /\ e.peak = TopTime(g)
  /\ e.total = Total(g) /\ e.high = <<TopRate(g)>>
  /\ e.average # <<>> /\ 2 * Abs(e.average[1] * Cardinality(g) - Rates(g)) <= Cardinality(g)
Finished(records) == Cardinality({g \in Groups(records) : Over(records, g)})
Ongoing(records) == Cardinality(Groups(records)) - Finished(records)
EventsOk(records, events) ==
  /\ Len(events) = Cardinality(Groups(records))
  /\ \A g \in Groups(records) : \E k \in DOMAIN events : EventOk(records, g, events[k])

-----------------------------------------------------------------------------
(* The same in one pass over the records in time order, for long histories     *)
(* (MCRain checks that both are the same).                                     *)
Begin(r) == [start |-> r[1], last |-> r[1], total |-> r[2][1], rates |-> r[3], n |-> 1, high |-> r[3], peak |-> r[1]]
Join(e, r) == [e EXCEPT !.last = r[1], !.total = e.total + r[2][1], !.rates = e.rates + r[3], !.n = e.n + 1,
                        !.high = IF r[3] > e.high THEN r[3] ELSE e.high, !.peak = IF r[3] > e.high THEN r[1] ELSE e.peak]
Scanned(es, r) == IF r[2] = <<>> \/ r[2] = <<0>> THEN es
                  ELSE IF es = <<>> \/ r[1] - es[Len(es)].last > Gap THEN Append(es, Begin(r))
                  ELSE [es EXCEPT ![Len(es)] = Join(es[Len(es)], r)]
\* es: the events so far, now: the time of the newest record
EventIs(e, now, s) ==
  /\ s.start = e.start /\ s.end = (IF now - e.last >= Gap THEN <<e.last>> ELSE <<>>) /\ s.peak = e.peak
  /\ s.total = e.total /\ s.high = <<e.high>> /\ s.average # <<>> /\ 2 * Abs(s.average[1] * e.n - e.rates) <= e.n
EventsAre(es, now, stored) ==
  Len(stored) = Len(es) /\ \A j \in DOMAIN es : \E k \in DOMAIN stored : EventIs(es[j], now, stored[k])
FinishedOf(es, now) == Cardinality({j \in DOMAIN es : now - es[j].last >= Gap})
=============================================================================
