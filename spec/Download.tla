------------------------------ MODULE Download ------------------------------
(* A web download: two requests, the service's two answers, the records.      *)
(* An answer to the first request: [type, model, version, interval, count,    *)
(* max]; to the second: [type, cte, ce, body] with ce = <<>> for none.        *)
EXTENDS Codec

HeadersTypes == {"text/html", "text/plain"}
HeadersSound(h) == h.type \in HeadersTypes /\ h.model = "16"
DataSound(d) == d.type = "application/octet-stream" /\ d.cte = "binary"
                /\ (d.ce # <<>> => d.ce[1] \notin {"br", "compress", "deflate", "gzip"})

\* the records of a body: how many there are, and whether reading them ends well.  kind(k) tells the k-th record apart.
RECURSIVE Reading(_, _, _)
Reading(kind(_), k, count) ==
  IF k > count THEN [records |-> count, out |-> "ok"]
  ELSE CASE kind(k) = "record" -> Reading(kind, k + 1, count)
         [] kind(k) = "empty" -> [records |-> k - 1, out |-> "ok"]
         [] OTHER -> [records |-> k - 1, out |-> "error"]

RecordAt(body, k) == SubSeq(body, DownloadLength * (k - 1) + 1, DownloadLength * k)
KindAt(body, k) == IF Len(body) < DownloadLength * k THEN "missing"
                   ELSE LET b == RecordAt(body, k) IN
                        IF DownloadEmpty(b) THEN "empty" ELSE IF DownloadSound(b) THEN "record" ELSE "foreign"

\* what a download comes to: the number of requests, the outcome, the number of records (of a successful one)
Result(h, d, kind(_)) ==
  IF ~HeadersSound(h) THEN [requests |-> 1, out |-> "error", records |-> 0, used |-> FALSE]
  ELSE IF ~DataSound(d) THEN [requests |-> 2, out |-> "error", records |-> 0, used |-> FALSE]
  ELSE LET r == Reading(kind, 1, h.count) IN [requests |-> 2, out |-> r.out, records |-> r.records, used |-> TRUE]
=============================================================================
