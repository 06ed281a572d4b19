-------------------------------- MODULE Live --------------------------------
(* Live weather: the packets of a station, taken by a poller in the foreground  *)
(* or by its background session, are handed to an exporter for rapid updates.   *)
(* Packets are numbered in the order in which the station sends them.           *)
EXTENDS Integers, Sequences, FiniteSets

Idle == [on |-> FALSE, left |-> 0, done |-> 0, how |-> "all", at |-> 0]
VARIABLES last,     \* the number of the newest packet the station sent
          held,     \* packets the caller has and has not handed over
          asked,    \* packets of the requests to the service, oldest first
          lost,     \* packets that nobody got: a session ended before them; or that the caller dropped
          session,  \* the background session
          ready     \* the connection can be used for another command
live == <<last, held, asked, lost, session, ready>>

LiveInit == last = 0 /\ held = <<>> /\ asked = <<>> /\ lost = {} /\ session = Idle /\ ready = TRUE

\* the caller asks for n packets and gets them
Poll(n) == /\ ready /\ ~session.on
           /\ last' = last + n /\ held' = held \o [j \in 1..n |-> last + j]
           /\ UNCHANGED <<asked, lost, session, ready>>
\* the caller hands over the oldest packet it has, once, whatever the service answers
Send == /\ ~session.on /\ held # <<>>
        /\ asked' = Append(asked, Head(held)) /\ held' = Tail(held)
        /\ UNCHANGED <<last, lost, session, ready>>
Drop == /\ ~session.on /\ held # <<>>
        /\ lost' = lost \cup {held[j] : j \in DOMAIN held} /\ held' = <<>>
        /\ UNCHANGED <<last, asked, session, ready>>
\* a background session for n packets: goes to its end, or at its k-th packet the callback stops it, the service fails (and the
\* callback with it), or after k packets the connection is cut
Start(n, how, k) == /\ ready /\ ~session.on
                    /\ session' = [on |-> TRUE, left |-> n, done |-> 0, how |-> how, at |-> k]
                    /\ UNCHANGED <<last, held, asked, lost, ready>>
Deliver == /\ session.on /\ session.left > 0
           /\ ~(session.how = "cut" /\ session.done = session.at)
           /\ ~(session.how = "stop" /\ session.done > session.at)
           /\ ~(session.how = "fail" /\ session.done = session.at)
           /\ last' = last + 1 /\ asked' = Append(asked, last + 1)
           /\ session' = [session EXCEPT !.left = @ - 1, !.done = @ + 1]
           /\ UNCHANGED <<held, lost, ready>>
\* the session ends; what the station sent for it and nobody took is lost with the connection
End == /\ session.on
       /\ CASE session.how = "all" -> session.left = 0
            [] session.how = "stop" -> session.done >= session.at
            [] OTHER -> session.done = session.at
       /\ last' = last + session.left
       /\ lost' = lost \cup (last + 1)..(last + session.left)
       /\ ready' = (session.how = "all")
       /\ session' = Idle /\ UNCHANGED <<held, asked>>
Reconnect == ~ready /\ ~session.on /\ ready' = TRUE /\ UNCHANGED <<last, held, asked, lost, session>>

\* the numbers of packets such a session may hand over
Delivered(n, how, k) == CASE how = "all" -> {n} [] how = "stop" -> {k, k + 1} \cap 0..n [] OTHER -> {k}
=============================================================================
