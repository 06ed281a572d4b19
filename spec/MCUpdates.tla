------------------------------ MODULE MCUpdates ------------------------------
(* Updates with small windows: every history over a few speeds and directions, *)
(* the gust found record by record against its definition; and shapes of        *)
(* histories for the driver.                                                    *)
EXTENDS Updates, TLC, Json

CONSTANTS Depth, Out

Speeds == {<<>>, <<0>>, <<1000>>, <<2000>>}
Headings == {<<>>, <<350000>>, <<10000>>}
SmallRecords == [wind_speed : Speeds, wind_direction_degrees : Headings]
Answers == {[status |-> s, text |-> t] : s \in {0, 199, 200, 206, 299, 300, 404, 500}, t \in {"success", "Success", "", "INVALIDPASSWORDID", "unsuccessful", "success, but ignored"}}

VARIABLES queue, gust, history
\* what an exporter could keep instead of looking through its queue, as long as nothing leaves the window
Init == queue = <<>> /\ gust = [speed |-> <<>>, direction |-> <<>>] /\ history = <<>>
Next == /\ Len(queue) < Depth
        /\ \E r \in SmallRecords :
             /\ queue' = Push(queue, r)
             /\ gust' = IF r.wind_speed # <<>> /\ (gust.speed = <<>> \/ r.wind_speed[1] >= gust.speed[1])
                        THEN [speed |-> r.wind_speed, direction |-> r.wind_direction_degrees] ELSE gust
             /\ UNCHANGED history
Incremental == Gust(queue) = gust
\* a plain average of two directions around north is not allowed, north is
AroundNorth == (Directions(queue) = {350000, 10000}) =>
  (AverageOk(queue, <<0>>) /\ AverageOk(queue, <<360000>>) /\ AverageOk(queue, <<350000>>) /\ ~AverageOk(queue, <<180000>>)
   /\ ~AverageOk(queue, <<>>))
Single == (Cardinality(Directions(queue)) = 1) =>
  LET d == CHOOSE d \in Directions(queue) : TRUE IN AverageOk(queue, <<d>>) /\ ~AverageOk(queue, <<(d + 1000) % Turn>>)
SomeAverage == Directions(queue) # {} => \E d \in Directions(queue) : AverageOk(queue, <<d>>)

\* shapes: kinds of updates with kinds of answers
GenNext == /\ Len(history) < Depth
           /\ \E kind \in {"simple", "rapid"}, a \in Answers :
                /\ IF history = <<>> THEN TRUE ELSE a.status \in {0, 200}
                /\ history' = Append(history, [kind |-> kind, answer |-> a])
                /\ Out => PrintT("BEHAVIOUR " \o ToJson(history'))
           /\ UNCHANGED <<queue, gust>>
=============================================================================
