-------------------------------- MODULE Poll --------------------------------
(* Background polling: two callers, one session thread, one console.          *)
(*                                                                            *)
(* s.open    a session exists            s.n      packets requested            *)
(* s.got     packets delivered           s.stop   a stop was requested         *)
(* s.late    packets delivered after it  s.incb   the callback is running      *)
(* s.queue   packets (numbers) sent by the console and not yet delivered       *)
(* s.bad     what follows them: "none" yet, "eof" or "malformed"               *)
(* s.failed  the callback raised, the session is about to end                  *)
(* s.held    the session was seen waiting for a packet with the stop requested *)
(* s.sent    bytes sent to the console since they were last looked at          *)
(* s.ops     each caller's call: <<>>, <<name, n, ack>> or <<name, outcome>>    *)
(* s.early   a stop was requested while a session was being started            *)
EXTENDS Console

Idle == [open |-> FALSE, n |-> 0, got |-> 0, stop |-> FALSE, late |-> 0, incb |-> FALSE, failed |-> FALSE, queue |-> <<>>, bad |-> "none",
         held |-> FALSE, early |-> FALSE, sent |-> <<>>, ops |-> [w \in {1, 2} |-> <<>>]]

End(s) == [s EXCEPT !.open = FALSE, !.incb = FALSE, !.failed = FALSE, !.stop = FALSE, !.late = 0, !.held = FALSE]

\* a stop cancels the transmission with a carriage return, unless everything has been received
Waiting(s) == s.open /\ ~s.incb /\ ~s.failed
CanDeliver(s) == Waiting(s) /\ s.got < s.n /\ s.queue # <<>> /\ (s.stop => s.late = 0)
CanCancel(s) == Waiting(s) /\ s.stop /\ s.got < s.n /\ (s.held => s.late > 0)
CanFinish(s) == Waiting(s) /\ s.got = s.n
CanFail(s) == s.open /\ (s.failed \/ (Waiting(s) /\ s.got < s.n /\ s.queue = <<>> /\ s.bad # "none"))

Deliver(s) == [s EXCEPT !.incb = TRUE, !.got = @ + 1, !.late = IF s.stop THEN @ + 1 ELSE @, !.queue = Tail(@)]
Cancel(s) == End([s EXCEPT !.sent = Append(@, 13)])
\* a session that ends in an error after a stop was requested may or may not send the carriage return
Fail(s) == {End(s)} \cup (IF s.stop /\ s.got < s.n THEN {Cancel(s)} ELSE {})

\* a caller's pending call takes effect; a start first claims the poller, and then asks the console
Pending(s, w) == Len(s.ops[w]) = 3
Claimed(s) == \E w \in {1, 2} : Pending(s, w) /\ s.ops[w][1] = "starting"
StartOutcome(ack) == IF ack = 6 THEN "ok" ELSE IF ack \in {21, 33} THEN "nak" ELSE "invalid"
Answer(s, w, out) == [s EXCEPT !.ops[w] = <<IF s.ops[w][1] = "stop" THEN "stop" ELSE "start", out>>]
Launch(s, w) ==
  LET out == StartOutcome(s.ops[w][3])
      t == [Answer(s, w, out) EXCEPT !.sent = @ \o PollCommand(2, s.ops[w][2]), !.early = FALSE]
  IN IF out = "ok" THEN [t EXCEPT !.open = TRUE, !.n = s.ops[w][2], !.got = 0, !.stop = s.early, !.late = 0, !.held = FALSE] ELSE t
Effects(s, w) ==
  CASE s.ops[w][1] = "stop" -> IF s.open THEN {[Answer(s, w, "ok") EXCEPT !.stop = TRUE]}
                               ELSE {Answer(s, w, "ValueError")}
                                    \cup (IF Claimed(s) THEN {[Answer(s, w, "ok") EXCEPT !.early = TRUE]} ELSE {})
    [] s.ops[w][1] = "start" -> IF s.open \/ Claimed(s) THEN {Answer(s, w, "ValueError")}
                                ELSE {[s EXCEPT !.ops[w] = <<"starting", s.ops[w][2], s.ops[w][3]>>]}
    [] s.ops[w][1] = "starting" -> {Launch(s, w)}

\* the steps nobody outside sees
Silent(s) == UNION {IF Pending(s, w) THEN Effects(s, w) ELSE {} : w \in {1, 2}}
             \cup (IF CanCancel(s) THEN {Cancel(s)} ELSE {})
             \cup (IF CanFinish(s) THEN {End(s)} ELSE {})
             \cup (IF CanFail(s) THEN Fail(s) ELSE {})
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {Silent(s) : s \in S} IN IF T = S THEN S ELSE Closure(T)

\* nothing is left to do but to wait for the console, the callback or the caller
Quiet(s) == /\ \A w \in {1, 2} : ~Pending(s, w)
            /\ \/ s.incb \/ ~s.open
               \/ s.got < s.n /\ s.queue = <<>> /\ s.bad = "none" /\ (s.stop => s.late = 0)

\* what an observed event does to a state (none if it cannot happen there)
Observe(s, e) ==
  CASE e.e = "call" -> {[s EXCEPT !.ops[e.who] = <<e.op, e.n, e.ack>>]}
    [] e.e = "ret" -> IF s.ops[e.who] = <<e.op, e.out>> THEN {[s EXCEPT !.ops[e.who] = <<>>]} ELSE {}
    [] e.e = "release" -> {[s EXCEPT !.queue = @ \o e.ids]}
    [] e.e = "bad" -> {[s EXCEPT !.bad = e.kind]}
    [] e.e = "cb" -> IF CanDeliver(s) /\ Head(s.queue) = e.id THEN {Deliver(s)} ELSE {}
    [] e.e = "cbend" -> IF ~s.incb THEN {}
                        ELSE {[s EXCEPT !.incb = FALSE, !.failed = (e.how # "return")]}
    [] e.e = "cbcall" -> IF ~s.incb THEN {}
                         ELSE IF e.op = "stop" THEN (IF e.out = "ok" THEN {[s EXCEPT !.stop = TRUE]} ELSE {})
                         ELSE (IF e.out = "ValueError" THEN {s} ELSE {})
    [] e.e = "quiet" -> IF Quiet(s) /\ s.incb = e.incb /\ s.sent = e.sent
                        THEN {[s EXCEPT !.sent = <<>>, !.held = s.stop /\ ~s.incb /\ s.open]} ELSE {}
    \* a new connection, made when no session runs
    [] e.e = "reconnect" -> IF s.open THEN {} ELSE {[s EXCEPT !.queue = <<>>, !.bad = "none"]}

Post(S, e) == UNION {Observe(s, e) : s \in Closure(S)}
=============================================================================
