-------------------------------- MODULE Link --------------------------------
(* The connections of console communicators.                                  *)
(*                                                                            *)
(* State: for each communicator whether it is connected (equivalently: how    *)
(* many sockets it has open, which is never more than one).  An operation     *)
(* concerns the communicator e.who; the others stay as they are.  Operations,  *)
(* with what the environment does:                                            *)
(*   connect     e.fault: "none" or the failure of creating / connecting the   *)
(*               socket; e.closefault: whether closing a socket fails          *)
(*   disconnect  e.closefault                                                  *)
(*   with        a with block: connects (as above), runs the body (a sequence  *)
(*               of steps: "disconnect", "connect", "raise", "raise_base", or   *)
(*               "other_connect", "other_disconnect": the same of another       *)
(*               communicator) and releases the connection                     *)
(* Each gives <<outcome, state afterwards, whether a body ran>> where an        *)
(* outcome is "ok", "ValueError" or the name of the failure that is raised.    *)
EXTENDS Integers, Sequences

\* connecting: <<outcome, connected>>
Connect(connected, fault) ==
  IF connected THEN <<"ValueError", TRUE>>
  ELSE IF fault = "none" THEN <<"ok", TRUE>> ELSE <<fault, FALSE>>

\* disconnecting: the connection is gone even when closing it reports an error
Disconnect(connected, closefault) ==
  IF ~connected THEN <<"ValueError", FALSE>>
  ELSE IF closefault THEN <<"close", FALSE>> ELSE <<"ok", FALSE>>

Other(who) == IF who = 1 THEN 2 ELSE 1
Opened(state) == (IF state[1] THEN 1 ELSE 0) + (IF state[2] THEN 1 ELSE 0)

\* the body of a with block: <<outcome, state, closefault>>; it ends at its first failure.  A closefault is met by the first close.
RECURSIVE Body(_, _, _, _)
Body(state, who, body, closefault) ==
  IF body = <<>> THEN <<"ok", state, closefault>>
  ELSE LET step == Head(body)
           whose == IF step \in {"other_connect", "other_disconnect"} THEN Other(who) ELSE who
       IN
       CASE step = "raise" -> <<"body", state, closefault>>
         [] step = "raise_base" -> <<"body_base", state, closefault>>
         [] step \in {"connect", "other_connect"} ->
              LET r == Connect(state[whose], "none")
                  after == [state EXCEPT ![whose] = r[2]]
              IN IF r[1] = "ok" THEN Body(after, who, Tail(body), closefault) ELSE <<r[1], after, closefault>>
         [] step \in {"disconnect", "other_disconnect"} ->
              LET r == Disconnect(state[whose], closefault)
                  after == [state EXCEPT ![whose] = r[2]]
              IN IF r[1] = "ok" THEN Body(after, who, Tail(body), closefault)
                 ELSE <<r[1], after, IF state[whose] THEN FALSE ELSE closefault>>

With(state, e) ==
  LET c == Connect(state[e.who], e.fault) IN
  IF c[1] # "ok" THEN <<c[1], [state EXCEPT ![e.who] = c[2]], FALSE>>
  ELSE LET b == Body([state EXCEPT ![e.who] = TRUE], e.who, e.body, e.closefault)
           d == Disconnect(b[2][e.who], b[3])
       IN <<IF b[1] # "ok" THEN b[1] ELSE d[1], [b[2] EXCEPT ![e.who] = FALSE], TRUE>>

Nobody == [who \in 1..2 |-> FALSE]

\* <<outcome, state afterwards, whether a body ran>>
Step(state, e) ==
  CASE e.k = "connect" -> LET r == Connect(state[e.who], e.fault) IN <<r[1], [state EXCEPT ![e.who] = r[2]], FALSE>>
    [] e.k = "disconnect" -> LET r == Disconnect(state[e.who], e.closefault) IN <<r[1], [state EXCEPT ![e.who] = r[2]], FALSE>>
    [] e.k = "with" -> With(state, e)
=============================================================================
