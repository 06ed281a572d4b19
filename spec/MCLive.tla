------------------------------- MODULE MCLive -------------------------------
(* Any sequence of what a caller may do with live weather.                      *)
EXTENDS Live, TLC, Json
CONSTANTS Depth, Packets, Out
VARIABLES history,    \* the caller's steps, for the driver
          calm        \* no stops, failures or drops so far
Sizes == 1..3
Sessions == {<<n, how, k>> \in Sizes \X {"all", "stop", "fail", "cut"} \X (0..3) :
             CASE how = "all" -> k = 0 [] how = "stop" -> k \in 1..n [] how = "fail" -> k \in 1..n [] how = "cut" -> k \in 0..(n - 1)}
Did(step) == /\ IF Out THEN Len(history) < Depth /\ history' = Append(history, step) ELSE UNCHANGED history
             /\ calm' = (calm /\ step[1] # "drop" /\ (step[1] = "start" => step[3] = "all"))

Init == LiveInit /\ history = <<>> /\ calm = TRUE
Caller == \/ \E n \in Sizes : Poll(n) /\ Did(<<"poll", n>>)
          \/ Send /\ Did(<<"send">>)
          \/ Drop /\ Did(<<"drop">>)
          \/ \E s \in Sessions : Start(s[1], s[2], s[3]) /\ Did(<<"start", s[1], s[2], s[3]>>)
Session == (Deliver \/ End \/ Reconnect) /\ UNCHANGED <<history, calm>>
Next == (last <= Packets /\ Caller) \/ Session
Spec == Init /\ [][Next]_<<live, history, calm>> /\ WF_<<live, history, calm>>(Session)

Elements(s) == {s[j] : j \in DOMAIN s}
\* nobody's packet is asked for twice, and none appears from nowhere
Once == Cardinality(Elements(asked)) = Len(asked)
Accounted == /\ Elements(asked) \cup Elements(held) \cup lost = 1..last
             /\ Elements(asked) \cap lost = {} /\ Elements(held) \cap (lost \cup Elements(asked)) = {}
\* a session hands over what it must, in the station's order
InOrder == session.on => \A j \in 1..session.done : asked[Len(asked) - session.done + j] = last - session.done + j
Extent == (session.on /\ ENABLED End) => session.done \in Delivered(session.done + session.left, session.how, session.at)
\* without failures, stops and drops everything gets there
Whole == (calm /\ ~session.on /\ held = <<>>) => Elements(asked) = 1..last
Ends == session.on ~> ~session.on

GenNext == (Caller /\ PrintT("BEHAVIOUR " \o ToJson(history'))) \/ Session
=============================================================================
