----------------------------- MODULE TraceLink ------------------------------
(* Recorded histories of two communicators against Link.                         *)
EXTENDS TraceLib, Link

EventBad(state, e) ==
  LET r == Step(state, e) IN
  Clause(e.out = r[1], "outcome_of_" \o e.k)
  \cup Clause(e.open = Opened(r[2]), "open_sockets_after_" \o e.k)
  \cup Clause((e.in_body = BAD) = ~r[3], "body_runs")
  \cup (IF r[3] THEN Clause(e.in_body = Opened(state) + 1, "open_in_body") ELSE {})

RECURSIVE HistoryBad(_, _, _)
HistoryBad(state, events, i) ==
  IF i > Len(events) THEN {}
  ELSE EventBad(state, events[i]) \cup HistoryBad(Step(state, events[i])[2], events, i + 1)

\* only the port each was given, or that of a WeatherLinkIP, is ever tried
PortBad(c) ==
  Clause(\A j \in DOMAIN c.events :
           LET e == c.events[j] IN
           Range(e.ports) \subseteq {c.ports[e.who]} \cup (IF "other_connect" \in Range(e.body) THEN {c.ports[Other(e.who)]} ELSE {}), "port")

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, HistoryBad(Nobody, Cases[i].events, 1) \cup PortBad(Cases[i]))
=============================================================================
