---------------------------- MODULE TraceUpdates ----------------------------
(* Recorded updates, by one exporter in turn, against Updates.  PROP chooses   *)
(* the clauses: C33 the request and its outcome, C34 gust and average, C25 the *)
(* UTC time.                                                                   *)
EXTENDS Requests

RECURSIVE Run(_, _, _, _)
Run(c, j, queue, bad) ==
  IF j > Len(c.steps) THEN bad
  ELSE LET k == c.steps[j] q == Push(queue, k.record) IN
       Run(c, j + 1, q, bad \cup (CASE Prop = "C33" -> RequestBad(c, k) \cup UtcBad(c, k)
                                    [] Prop = "C34" -> RecentBad(q, k) \cup Clause(k.requests = 1, "number_of_requests")
                                    [] Prop = "C25" -> UtcBad(c, k)))

Bad(c) == Run(c, 1, <<>>, {})

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
