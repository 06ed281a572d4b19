---------------------------- MODULE TraceDownload ----------------------------
(* Recorded downloads, on one downloader in turn, against Download.            *)
EXTENDS TraceLib, Download

Expected(from) == IF from.kind = "date" THEN Pack(from.date) ELSE from.stamp

RequestBad(c, k, r, action) ==
  Clause(r.method = "GET" /\ r.host = "api.weatherlink.com" /\ r.path = "/webdl.php" /\ r.scheme = "https", "address_of_request")
  \cup Clause(r.user = c.user, "user_of_request") \cup Clause(r.pass = c.pass, "password_of_request")
  \cup Clause(r.token = c.token, "token_of_request") \cup Clause(r.action = action, "action_of_request")
  \cup Clause(r.timestamp = Expected(k.from), "timestamp_of_request") \cup Clause(r.others = 0, "parameters_of_request")

StepBad(c, k) ==
  LET r == Result(k.first, k.second, LAMBDA n : KindAt(k.second.body, n))
  IN Clause(Len(k.requests) = r.requests, "number_of_requests")
     \cup (IF k.requests # <<>> THEN RequestBad(c, k, k.requests[1], "headers") ELSE {})
     \cup (IF Len(k.requests) > 1 THEN RequestBad(c, k, k.requests[2], "data") ELSE {})
     \cup Clause((k.out = "ok") = (r.out = "ok") /\ k.out # "Hang", "outcome")
     \cup Clause(k.kept, "earlier_records")              \* what an earlier download gave stays as it was
     \cup (IF ~r.used THEN Clause(~k.used, "data_used") ELSE {})
     \cup (IF r.out # "ok" \/ k.out # "ok" THEN {}
           ELSE Clause(Len(k.records) = r.records, "number_of_records")
                \cup UNION {DownloadBad(RecordAt(k.second.body, n), k.first.interval, k.records[n]) :
                            n \in (1..r.records) \cap DOMAIN k.records}
                \cup Clause(k.announced = <<k.first.version, k.first.interval, k.first.count, k.first.max>>, "announced"))

Bad(c) == UNION {StepBad(c, c.steps[n]) : n \in DOMAIN c.steps} \cup Clause(c.incomplete = "ValueError", "incomplete_credentials")

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
