----------------------------- MODULE TracePoll ------------------------------
(* Recorded schedules of background polling against Poll.                     *)
EXTENDS TraceLib, Poll

RECURSIVE Run(_, _, _)
Run(S, events, i) ==
  IF i > Len(events) THEN {}
  ELSE LET T == Post(S, events[i]) IN
       IF T = {} THEN {"event_" \o ToString(i) \o "_" \o events[i].e} ELSE Run(T, events, i + 1)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Run({Idle}, Cases[i].events, 1))
=============================================================================
