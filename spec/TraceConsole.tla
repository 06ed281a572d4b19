---------------------------- MODULE TraceConsole ----------------------------
(* Recorded conversations against Console.                                    *)
EXTENDS TraceLib, Console

\* the names of the classes of the exception raised, most special first; <<>> for none
OutcomeOk(names, out) ==
  LET has == Range(names) IN
  CASE out = "ok" -> names = <<>>
    [] out = "nak" -> {"NotAcknowledgedError", "AcknowledgmentError", "OSError"} \subseteq has
    [] out = "invalid" -> {"InvalidAcknowledgementError", "AcknowledgmentError", "OSError"} \subseteq has
                          /\ "NotAcknowledgedError" \notin has
    [] out = "short" -> "OSError" \in has /\ "AcknowledgmentError" \notin has
    [] out = "crc" -> "CRCValidationError" \in has /\ "OSError" \in has
    [] out = "ValueError" -> "ValueError" \in has
    [] out = "error" -> names # <<>> /\ "Hang" \notin has

ValueOk(e, r) ==
  CASE e.k \in {"poll", "background"} ->
         Len(e.value) = Len(r.value) /\ \A i \in DOMAIN r.value : Loop2Bad(r.value[i], e.value[i]) = {}
    [] OTHER -> e.value = r.value

EventBad(s, e) ==
  LET r == Result(s, e) IN
  Clause(e.sent = r.sent, "sent_by_" \o e.k)
  \cup Clause(OutcomeOk(e.out, r.out), "outcome_of_" \o e.k \o "_" \o r.out)
  \cup Clause(ValueOk(e, r), "value_of_" \o e.k)
  \cup (IF e.k = "read" /\ e.sound
        THEN Clause(e.resp = <<Ack>> \o SubSeq(s.mem, e.at + 1, e.at + e.n) \o CrcBytes(SubSeq(s.mem, e.at + 1, e.at + e.n)), "memory")
        ELSE {})

\* what follows a violation is not judged: the two sides may have lost step
RECURSIVE HistoryBad(_, _, _)
HistoryBad(s, events, i) ==
  IF i > Len(events) THEN {}
  ELSE LET bad == EventBad(s, events[i]) IN
       IF bad # {} THEN bad ELSE HistoryBad(Result(s, events[i]).next, events, i + 1)

Bad(c) == IF c.constructed # <<>> THEN {"constructed"}
          ELSE HistoryBad([stream |-> <<>>, eof |-> FALSE, mem |-> c.mem], c.events, 1)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
