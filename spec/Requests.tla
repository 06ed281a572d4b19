------------------------------ MODULE Requests ------------------------------
(* Recorded requests to Weather Underground against Updates.  k: one update as  *)
(* recorded, with record its measurements; c: what its exporter was given.      *)
EXTENDS TraceLib, Updates

\* the optional value of a parameter in the request (a function from names to sequences of values)
Sent(k, name) == IF name \in DOMAIN k.parameters THEN k.parameters[name] ELSE <<>>
Wrong(k, map) == {"parameter_" \o map[j][1] : j \in {j \in DOMAIN map : Sent(k, map[j][1]) # k.record[map[j][2]]}}
Names(map) == {map[j][1] : j \in DOMAIN map}

RequestBad(c, k) ==
  Clause(k.requests = 1, "number_of_requests")
  \cup Clause((k.out = "ok") = Succeeds(k.answer) /\ k.out # "Hang", "outcome")
  \cup (IF k.requests = 0 THEN {} ELSE
     Clause(k.method = "GET" /\ k.path = "/weatherstation/updateweatherstation.php" /\ k.fixed
            /\ k.host = (IF k.kind = "simple" THEN "weatherstation.wunderground.com" ELSE "rtupdate.wunderground.com"), "service")
     \cup Clause(k.id = c.id, "station_id") \cup Clause(k.password = c.password, "password")
     \cup (IF k.kind = "simple"
           THEN Wrong(k, SimpleMap) \cup Clause(Sent(k, "dewptf") = k.dewpoint, "parameter_dewptf")
                \cup Clause(DOMAIN k.parameters \subseteq Names(SimpleMap) \cup {"dewptf"}, "other_parameters")
           ELSE Wrong(k, RapidMap)
                \cup Clause(DOMAIN k.parameters \subseteq Names(RapidMap) \cup {"windgustmph", "windgustdir", "winddir_avg2m"}, "other_parameters")))

UtcBad(c, k) == IF k.requests = 0 THEN {"number_of_requests"}
                ELSE Clause(k.seconds = k.date[6] /\ k.utc \in ToUtc(c.zone, k.date), "utc")

RecentBad(queue, k) ==
  IF k.kind # "rapid" \/ k.requests = 0 THEN {}
  ELSE LET g == Gust(queue) IN
       Clause(Sent(k, "windgustmph") = g.speed, "gust")
       \cup Clause(Sent(k, "windgustdir") = g.direction, "gust_direction")
       \cup Clause(AverageOk(queue, Sent(k, "winddir_avg2m")), "average_direction")
=============================================================================
