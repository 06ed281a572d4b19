------------------------------- MODULE MCSync -------------------------------
(* Clients synchronise, one step at a time and in any interleaving, while      *)
(* records arrive, downloads and statements fail, connections go and clients   *)
(* crash.  Each keeps its connection as long as it can; reads are repeatable   *)
(* within a transaction, so whether asking ends its transaction matters.       *)
EXTENDS Sync, TLC, Json

CONSTANTS Clients, Records, Faults, EndsReading, Depth, Out

VARIABLES service, table, client, faults, history
vars == <<service, table, client, faults, history>>

\* snapshot: the contents the client's open transaction reads, or {-1} for none
None == {-1}
Idle == [at |-> "idle", from |-> 0, queue |-> <<>>, upto |-> 0, clean |-> TRUE]
Start == [conn |-> "none", snapshot |-> None] @@ Idle
Init == /\ service = 0 /\ table = {} /\ client = [c \in Clients |-> Start] /\ faults = 0 /\ history = <<>>
Log(step) == history' = IF Depth = 0 THEN history ELSE Append(history, step)
May(fault) == fault = "" \/ faults < Faults
Count(fault) == faults' = IF fault = "" THEN faults ELSE faults + 1
Back(s, fault) == Idle @@ [conn |-> IF LosesConnection(fault) THEN "lost" ELSE s.conn, snapshot |-> None]

Arrive == /\ service < Records /\ service' = service + 1 /\ Log(<<"arrive">>) /\ UNCHANGED <<table, client, faults>>
\* (connects first if it has no connection)
Query(c, fault) ==
  LET s == client[c]
      seen == IF s.snapshot = None THEN table ELSE s.snapshot
      open == [s EXCEPT !.conn = "up"]
  IN /\ s.at = "idle" /\ May(fault) /\ Count(fault) /\ Log(<<"query", c, fault>>) /\ UNCHANGED <<service, table>>
     /\ client' = [client EXCEPT ![c] = IF fault # "" THEN Back(open, fault)
                     ELSE [open EXCEPT !.at = "asked", !.from = Newest(seen), !.snapshot = IF EndsReading THEN None ELSE seen]]
Fetch(c, fault) ==
  LET s == client[c] queue == Answer(service, s.from, Most(fault)) IN
  /\ s.at = "asked" /\ May(fault) /\ Count(fault) /\ Log(<<"fetch", c, fault>>) /\ UNCHANGED <<service, table>>
  /\ client' = [client EXCEPT ![c] = IF ~FetchOk(fault) \/ queue = <<>> THEN Idle @@ [conn |-> s.conn, snapshot |-> s.snapshot]
                  ELSE [s EXCEPT !.at = "got", !.queue = queue, !.upto = queue[Len(queue)]]]
Store(c, fault) ==
  LET s == client[c] r == Head(s.queue) IN
  /\ s.at = "got" /\ May(fault) /\ Count(fault) /\ Log(<<"store", c, fault>>) /\ UNCHANGED service
  /\ table' = IF IsStored(table, r, fault) THEN table \cup {r} ELSE table
  /\ client' = [client EXCEPT ![c] = IF ~StoreOk(table, r, fault) THEN Back(s, fault)
                  ELSE IF Len(s.queue) = 1 THEN Idle @@ [conn |-> s.conn, snapshot |-> None]
                  ELSE [s EXCEPT !.queue = Tail(@), !.snapshot = None]]
Crash(c) == /\ client[c].conn = "up" /\ May("crash") /\ Count("crash") /\ client' = [client EXCEPT ![c] = Start] /\ Log(<<"crash", c>>)
            /\ UNCHANGED <<service, table>>
Steps(c) == \/ \E f \in {"", "error", "drop"} : Query(c, f)
            \/ \E f \in {"", "headers", "data", "cut", "short"} : Fetch(c, f)
            \/ \E f \in StoreKinds : Store(c, f)
Next == (Depth = 0 \/ Len(history) < Depth) /\ (Arrive \/ \E c \in Clients : Steps(c) \/ Crash(c))
Spec == Init /\ [][Next]_vars /\ \A c \in Clients : WF_vars(Query(c, "") \/ Fetch(c, "") \/ Store(c, ""))

\* every record up to the newest stored one is stored; no record can be stored twice, it is the key of its row
Prefix == table = 1..Cardinality(table) /\ Cardinality(table) <= service
\* the answer to the query is the newest stored record at that time
Latest == [][\A c \in Clients : (client[c].at = "idle" /\ client'[c].at = "asked") => client'[c].from = Newest(table)]_vars
\* a session that ends well stored all it was given, which is everything the service had unless it cut the answer short
Complete == [][\A c \in Clients : (client[c].at = "got" /\ client'[c].at = "idle" /\ StoreOk(table, Head(client[c].queue), "") /\ faults' = faults)
               => 1..client[c].upto \subseteq table']_vars
\* what is stored stays
Kept == [][table \subseteq table']_vars
\* whatever happens, in the end everything is stored
InTheEnd == \A n \in 1..Records : (service >= n) ~> (n \in table)

GenNext == /\ Next
           /\ (Out /\ Len(history') = Depth) => PrintT("BEHAVIOUR " \o ToJson(history'))
=============================================================================
