------------------------------- MODULE MCPoll -------------------------------
(* All interleavings of one or two callers, the session thread, the console and the     *)
(* callback, against what C07 asks of them (cfg MCPoll), also under fairness   *)
(* (MCPollLive); and all schedules of outside actions up to a length, each     *)
(* taken when the session has settled, for the driver to replay (MCPollGen).   *)
EXTENDS Poll, TLC, Json

CONSTANTS Depth, MaxN, MaxPackets, Callers, Out

VARIABLES s,            \* the state of Poll
          history,      \* the outside actions so far (generator only)
          released,     \* number of packets the console sent on this connection
          delivered,    \* the numbers of the packets delivered in this session
          stoppedAt,    \* packets delivered in this session when the stop was requested, or -1
          crs,          \* carriage returns sent in this session
          steps         \* outside actions taken
vars == <<s, history, released, delivered, stoppedAt, crs, steps>>

Init == s = Idle /\ history = <<>> /\ released = 0 /\ delivered = <<>> /\ stoppedAt = -1 /\ crs = 0 /\ steps = 0

\* the session thread and the pending call
CRsIn(t) == Len(SelectSeq(t.sent, LAMBDA b : b = 13))
Inner == \/ \E t \in Silent(s) :
              /\ s' = t
              /\ crs' = IF t.open /\ ~s.open THEN 0 ELSE crs + CRsIn(t) - CRsIn(s)
              /\ stoppedAt' = IF t.open /\ ~s.open THEN (IF t.stop THEN 0 ELSE -1) ELSE IF t.stop /\ ~s.stop THEN s.got ELSE stoppedAt
              /\ delivered' = IF t.open /\ ~s.open THEN <<>> ELSE delivered
              /\ UNCHANGED <<released>>
         \/ /\ CanDeliver(s)
            /\ s' = Deliver(s)
            /\ delivered' = Append(delivered, Head(s.queue))
            /\ UNCHANGED <<released, stoppedAt, crs>>

NoCall == \A w \in {1, 2} : s.ops[w] = <<>>
Keep == UNCHANGED <<delivered, crs>>
Outer(a) ==
  CASE a.a = "start" -> /\ s.ops[a.who] = <<>> /\ s' = [s EXCEPT !.ops[a.who] = <<"start", a.n, a.ack>>] /\ Keep /\ UNCHANGED <<released, stoppedAt>>
    [] a.a = "stop" -> /\ s.ops[a.who] = <<>> /\ s' = [s EXCEPT !.ops[a.who] = <<"stop", 0, 0>>] /\ Keep /\ UNCHANGED <<released, stoppedAt>>
    [] a.a = "return" -> /\ Len(s.ops[a.who]) = 2 /\ s' = [s EXCEPT !.ops[a.who] = <<>>] /\ Keep /\ UNCHANGED <<released, stoppedAt>>
    [] a.a = "release" -> /\ s.bad = "none" /\ released < MaxPackets /\ released' = released + 1
                          /\ s' = [s EXCEPT !.queue = Append(@, released + 1)] /\ Keep /\ UNCHANGED stoppedAt
    [] a.a = "bad" -> /\ s.bad = "none" /\ s' = [s EXCEPT !.bad = a.kind] /\ Keep /\ UNCHANGED <<released, stoppedAt>>
    [] a.a = "cbend" -> /\ s.incb /\ s' = [s EXCEPT !.incb = FALSE, !.failed = (a.how # "return")] /\ Keep
                        /\ UNCHANGED <<released, stoppedAt>>
    [] a.a = "cbstop" -> /\ s.incb /\ s' = [s EXCEPT !.stop = TRUE] /\ stoppedAt' = IF s.stop THEN stoppedAt ELSE s.got
                         /\ UNCHANGED <<released, delivered, crs>>
    [] a.a = "reconnect" -> /\ ~s.open /\ NoCall /\ s' = [s EXCEPT !.queue = <<>>, !.bad = "none"]
                            /\ released' = 0 /\ Keep /\ UNCHANGED stoppedAt

Actions == {[a |-> "start", who |-> w, n |-> n, ack |-> k] : w \in Callers, n \in 1..MaxN, k \in {6, 21}}
           \cup {[a |-> x, who |-> w] : x \in {"stop", "return"}, w \in Callers}
           \cup {[a |-> "release"], [a |-> "cbstop"], [a |-> "reconnect"]}
           \cup {[a |-> "bad", kind |-> k] : k \in {"eof", "malformed"}}
           \cup {[a |-> "cbend", how |-> h] : h \in {"return", "raise"}}

\* sent bytes are looked at as soon as the caller's call is over, so that they stay few
Look == s.sent # <<>> /\ NoCall /\ s' = [s EXCEPT !.sent = <<>>] /\ UNCHANGED <<released, delivered, stoppedAt, crs>>

Next == \/ (Inner /\ UNCHANGED <<history, steps>>)
        \/ (Look /\ UNCHANGED <<history, steps>>)
        \/ \E a \in Actions : Outer(a) /\ steps < Depth /\ steps' = steps + (IF a.a = "return" THEN 0 ELSE 1) /\ UNCHANGED history
Spec == Init /\ [][Next]_vars
\* the session and the callback make progress, the console goes on sending, calls return
Fair == /\ WF_vars(Inner /\ UNCHANGED <<history, steps>>)
        /\ WF_vars(Look /\ UNCHANGED <<history, steps>>)
        /\ WF_vars(\E a \in Actions : (a.a = "return" \/ (a.a = "cbend" /\ a.how = "return")) /\ Outer(a) /\ steps' = steps /\ UNCHANGED history)
LiveNext == Next \/ \E a \in Actions : a.a = "cbend" /\ Outer(a) /\ steps' = steps /\ UNCHANGED history
LiveSpec == Init /\ [][LiveNext]_vars /\ Fair

InOrder == \A i \in DOMAIN delivered : i > 1 => delivered[i] = delivered[i - 1] + 1
NotTooMany == s.open => (s.got <= s.n /\ Len(delivered) = s.got)
OneMoreAtMost == (stoppedAt >= 0 /\ s.open) => s.got <= stoppedAt + 1
OneReturn == crs <= 1 /\ (crs = 1 => stoppedAt >= 0)
\* a session whose packets were all received is not cancelled
NotCancelledWhenComplete == (crs = 1 /\ ~s.open) => Len(delivered) < s.n
\* what a caller is told is consistent: starting is refused exactly when a session runs or is being started, stopping
\* only when none runs; and a session only begins by a start that found none
Refusals == [][\A w \in {1, 2} : (Pending(s, w) /\ Len(s'.ops[w]) = 2) =>
               CASE s'.ops[w] = <<"start", "ValueError">> -> s.open \/ Claimed(s)
                 [] s'.ops[w] = <<"stop", "ValueError">> -> ~s.open
                 [] s.ops[w][1] = "stop" -> s.open \/ Claimed(s)
                 [] OTHER -> ~s.open]_vars
OneClaim == Cardinality({w \in {1, 2} : Pending(s, w) /\ s.ops[w][1] = "starting"}) + (IF s.open THEN 1 ELSE 0) <= 1
\* a stopped session whose console keeps sending or closes ends
EventuallyEnds == (s.open /\ s.stop /\ (s.queue # <<>> \/ s.bad # "none")) ~> ~s.open

-----------------------------------------------------------------------------
(* Schedules: each outside action happens when everything else has settled.   *)
(* A settled session that is stopped while it waits takes one more packet.    *)
RECURSIVE Settle(_)
Settle(t) == IF Pending(t, 1) THEN Settle(CHOOSE u \in Effects(t, 1) : TRUE)
             ELSE IF t.ops[1] # <<>> THEN Settle([t EXCEPT !.ops[1] = <<>>])
             ELSE IF CanFinish(t) THEN End(t)
             ELSE IF CanCancel(t) THEN [Cancel(t) EXCEPT !.sent = <<>>]
             ELSE IF CanDeliver(t) THEN Deliver(t)
             ELSE IF CanFail(t) THEN End(t)
             ELSE [t EXCEPT !.sent = <<>>, !.held = t.open /\ ~t.incb]
GenActions == {[a |-> "start", n |-> n, ack |-> k] : n \in 1..MaxN, k \in {6, 0}}
              \cup {[a |-> "release", n |-> n] : n \in {1, 2}}
              \cup {[a |-> x] : x \in {"stop", "eof", "malformed", "cbreturn", "cbraise", "cbstop", "cbstart"}}
GenEnabled(a) == CASE a.a \in {"cbreturn", "cbraise", "cbstop", "cbstart"} -> s.incb
                   [] a.a = "release" -> s.open /\ s.bad = "none" /\ Len(s.queue) < 2
                   [] a.a \in {"eof", "malformed"} -> s.open /\ s.bad = "none"
                   [] a.a = "start" -> (~s.open \/ (a.n = 1 /\ a.ack = 6))
                   [] OTHER -> TRUE
GenStep(a) == CASE a.a = "start" -> IF s.open THEN s ELSE [s EXCEPT !.ops[1] = <<"start", a.n, a.ack>>, !.queue = <<>>, !.bad = "none"]
                [] a.a = "stop" -> [s EXCEPT !.ops[1] = <<"stop", 0, 0>>]
                [] a.a = "release" -> [s EXCEPT !.queue = @ \o [i \in 1..a.n |-> 0]]
                [] a.a \in {"eof", "malformed"} -> [s EXCEPT !.bad = a.a]
                [] a.a = "cbreturn" -> [s EXCEPT !.incb = FALSE]
                [] a.a = "cbraise" -> End(s)
                [] a.a = "cbstop" -> [s EXCEPT !.stop = TRUE]
                [] a.a = "cbstart" -> s
GenNext == /\ steps < Depth
           /\ \E a \in GenActions :
                /\ GenEnabled(a)
                /\ s' = Settle(GenStep(a))
                /\ history' = Append(history, a)
                /\ steps' = steps + 1
                /\ UNCHANGED <<released, delivered, stoppedAt, crs>>
                /\ (Out /\ steps + 1 = Depth) => PrintT("BEHAVIOUR " \o ToJson(history'))
=============================================================================
