------------------------------- MODULE MCLink -------------------------------
(* All histories of one or two communicators up to a length, against the       *)
(* requirements of C01; and the same histories written out for the driver to   *)
(* replay on real communicators.                                               *)
EXTENDS Link, TLC, Json, FiniteSets

CONSTANTS Depth, Out, Whos      \* with two, the first operation is the first one's

Faults == {"none", "create", "connect", "refused", "connected_then", "interrupt"}
Bodies == {<<>>, <<"raise">>, <<"raise_base">>, <<"disconnect">>, <<"disconnect", "raise">>, <<"connect">>,
           <<"disconnect", "connect">>, <<"disconnect", "disconnect">>}
OthersBodies == {<<"other_connect">>, <<"other_disconnect">>, <<"other_connect", "other_disconnect">>,
                 <<"other_connect", "disconnect">>, <<"other_connect", "raise">>}
Ops == [who : Whos, k : {"connect"}, fault : Faults, closefault : BOOLEAN, body : {<<>>}]
       \cup [who : Whos, k : {"disconnect"}, fault : {"none"}, closefault : BOOLEAN, body : {<<>>}]
       \cup [who : Whos, k : {"with"}, fault : {"none", "connect"}, closefault : BOOLEAN,
             body : Bodies \cup (IF Whos = {1} THEN {} ELSE OthersBodies)]

VARIABLES history, state, before, last
vars == <<history, state, before, last>>

Init == history = <<>> /\ state = Nobody /\ before = Nobody /\ last = <<"ok", FALSE>>
Next == /\ Len(history) < Depth
        /\ \E e \in Ops :
             LET r == Step(state, e) IN
             /\ history = <<>> => e.who = 1
             /\ history' = Append(history, e)
             /\ before' = state
             /\ state' = r[2]
             /\ last' = <<r[1], r[3]>>
             /\ (Out /\ Len(history) + 1 = Depth /\ {history'[j].who : j \in 1..Depth} = Whos) => PrintT("BEHAVIOUR " \o ToJson(history'))

AtMostOne == Opened(state) <= Cardinality(Whos)
\* misuse changes nothing; a failure leaves the communicator usable; a body's error is never replaced
LastOp == history[Len(history)]
Touched == IF \E j \in DOMAIN LastOp.body : LastOp.body[j] \in {"other_connect", "other_disconnect"} THEN {1, 2} ELSE {LastOp.who}
Effects == history # <<>> =>
  /\ (LastOp.k = "connect" /\ last[1] # "ok") => ((last[1] = "ValueError") = state[LastOp.who])
  /\ LastOp.k = "disconnect" => ~state[LastOp.who]
  /\ (LastOp.k = "with" /\ last[2]) => ~state[LastOp.who]
  /\ (LastOp.k = "with" /\ last[2] /\ LastOp.body # <<>> /\ LastOp.body[1] = "raise") => last[1] = "body"
  /\ last[1] = "ValueError" /\ LastOp.body = <<>> => (state = before \/ last[2])
Independent == history # <<>> => \A who \in {1, 2} \ Touched : state[who] = before[who]
=============================================================================
