----------------------------- MODULE MCDownload -----------------------------
(* Shapes of downloads: every answer of the service, every sequence of        *)
(* records up to a length, whatever number is announced; written out for the  *)
(* driver, and the requirements of C14 on what each comes to.                  *)
EXTENDS Download, TLC, Json

CONSTANTS Depth, MaxRecords, Out

Heads == {"good", "fail", "plain", "charset", "octet", "model", "nomodel"}
Datas == {"good", "fail", "identity", "html", "cte", "br", "compress", "deflate", "gzip"}
Kinds == {"record", "empty", "foreign"}
Bodies == UNION {[1..n -> Kinds] : n \in 0..MaxRecords}
Shapes == [head : Heads, data : {"good"}, body : {<<>>, <<"record">>}, count : {1}, cut : {FALSE}]
          \cup [head : {"good", "model"}, data : Datas, body : {<<>>, <<"record">>}, count : {0, 1}, cut : {FALSE}]
          \cup [head : {"good"}, data : {"good"}, body : Bodies, count : 0..MaxRecords, cut : BOOLEAN]

HeadersOf(s) == [type |-> CASE s.head \in {"good", "model", "nomodel"} -> "text/html" [] s.head = "plain" -> "text/plain" [] s.head = "fail" -> "none"
                       [] s.head = "charset" -> "text/html; charset=UTF-8" [] OTHER -> "application/octet-stream",
            model |-> IF s.head \in {"model", "nomodel"} THEN "15" ELSE "16", count |-> s.count]
DataOf(s) == [type |-> IF s.data = "html" THEN "text/html" ELSE IF s.data = "fail" THEN "none" ELSE "application/octet-stream",
            cte |-> IF s.data = "cte" THEN "base64" ELSE "binary",
            ce |-> IF s.data \in {"identity", "br", "compress", "deflate", "gzip"} THEN <<s.data>> ELSE <<>>]
\* the last record of a body that is cut short is incomplete
KindIn(s, k) == IF k > Len(s.body) \/ (s.cut /\ k = Len(s.body)) THEN "missing" ELSE s.body[k]
ResultOf(s) == Result(HeadersOf(s), DataOf(s), LAMBDA k : KindIn(s, k))

VARIABLES history, held          \* shapes so far; number of records the downloader holds
Init == history = <<>> /\ held = 0
Next == /\ Len(history) < Depth
        /\ \E s \in Shapes :
             LET r == ResultOf(s) IN
             /\ history' = Append(history, s)
             /\ held' = IF r.used THEN r.records ELSE held
             /\ (Out /\ Len(history) + 1 = Depth) => PrintT("BEHAVIOUR " \o ToJson(history'))

Last == history[Len(history)]
Required ==
  history # <<>> =>
  LET s == Last r == ResultOf(s) complete == Len(s.body) - (IF s.cut /\ s.body # <<>> THEN 1 ELSE 0) IN
  /\ r.requests \in {1, 2} /\ (r.out = "ok" => r.requests = 2)
  /\ (r.out = "ok") =>
       /\ s.head \in {"good", "plain"} /\ s.data \in {"good", "identity"}
       /\ r.records <= s.count /\ r.records <= complete
       /\ \A k \in 1..r.records : s.body[k] = "record"
       /\ r.records < s.count => (complete > r.records /\ s.body[r.records + 1] = "empty")
  /\ (r.out # "ok" /\ r.used) => \E k \in 1..s.count : k > complete \/ s.body[k] = "foreign"
  /\ (r.used => held = r.records)
=============================================================================
