-------------------------------- MODULE Sync --------------------------------
(* Synchronising the archive table with the web service: ask for the newest   *)
(* stored time stamp, download what came after it, store that in order.  The  *)
(* service has records 1..n in the order of time; the table holds some.       *)
EXTENDS Integers, Sequences, FiniteSets

\* the newest of the stored records, 0 for none
Newest(stored) == IF stored = {} THEN 0 ELSE CHOOSE r \in stored : \A q \in stored : q <= r
\* what the service answers to a request for everything after a record, at most so many (0: no limit)
Answer(n, from, most) == LET last == IF most = 0 \/ from + most > n THEN n ELSE from + most IN [j \in 1..(last - from) |-> from + j]

\* faults of a query ("", "error", "drop"), of a download ("", "headers", "data", "cut", "short" - the service answers with one record only)
\* and of storing a record: kind and statement, as in Transactions
FetchOk(fault) == fault \in {"", "short"}
Most(fault) == IF fault = "short" THEN 1 ELSE 0
\* whether a record is in the table after an attempt to store it, and whether the attempt is reported as successful
StoreKinds == {"", "error1", "drop1", "ack1", "error2", "deadlock2", "drop2", "ack2"}
IsStored(stored, r, fault) == r \in stored \/ fault \in {"", "ack2"}
StoreOk(stored, r, fault) == r \notin stored /\ fault = ""
LosesConnection(fault) == fault \in {"drop", "drop1", "ack1", "drop2", "ack2"}
=============================================================================
