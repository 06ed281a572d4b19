------------------------------ MODULE MCArchive ------------------------------
(* The archive table over few records: exports from several connections, in    *)
(* any order, with repeated time stamps; and what WrongCells tells apart.       *)
EXTENDS Archive, TLC, Json

CONSTANTS Depth, Out

\* two time stamps (the second one earlier on the clock of another year), two contents each
Dates == <<<<2016, 11, 6, 1, 30>>, <<2015, 12, 31, 23, 55>>>>
StampOf(d) == <<(d[1] - 2000) * 512 + d[2] * 32 + d[3], d[4] * 100 + d[5]>>
Base == [a \in Attributes |-> <<>>]
Record(w, v) == [Base EXCEPT !.timestamp = StampOf(Dates[w]), !.date = Dates[w], !.temperature_outside = IF v = 0 THEN <<>> ELSE <<<<-1, 650000>>>>,
                             !.wind_direction_prevailing = <<v>>]
Records == {Record(w, v) : w \in 1..2, v \in 0..1}

\* the row a record makes
Round(x, units) == x[1] * units + ((x[2] * 2 * units + Micro) \div (2 * Micro))
Cell(r, a) == CASE a \in DOMAIN Numbers -> IF r[a] = <<>> THEN <<>> ELSE <<Round(r[a][1], Numbers[a].units)>>
                [] a \in DOMAIN Directions -> r[a]
                [] a = "summary_year" -> <<r.date[1]>> [] a = "summary_month" -> <<r.date[2]>> [] a = "summary_day" -> <<r.date[3]>>
                [] a = "timestamp" -> r.timestamp [] a = "date" -> <<MinuteNumber(r.date)>>
                [] a = "timestamp_utc" -> <<CHOOSE u \in ToUtc("America/Chicago", r.date) : TRUE>>
Maps == {[x \in {} |-> ""], [temperature_outside |-> DoNotInsert], [temperature_outside |-> "my_t", date |-> "my_date"]}
Columns(o) == {ColumnOf(o, a) : a \in Attributes} \cup {Documented(a) : a \in {b \in DOMAIN o : o[b] = DoNotInsert}}
RowOf(r, o) == [c \in Columns(o) \ {DoNotInsert} |->
                 IF \E a \in Attributes : ColumnOf(o, a) = c THEN Cell(r, CHOOSE a \in Attributes : ColumnOf(o, a) = c) ELSE <<>>]

VARIABLES table, history, exported
Init == table = <<>> /\ history = <<>> /\ exported = {}
Next == /\ Len(history) < Depth
        /\ \/ \E r \in Records : table' = Export(table, r) /\ exported' = exported \cup {r} /\ history' = Append(history, <<"export", r>>)
           \/ UNCHANGED <<table, exported>> /\ history' = Append(history, <<"reconnect">>)
\* every time stamp exported is there once, with what came first
Once == \A j, k \in DOMAIN table : j # k => table[j].timestamp # table[k].timestamp
All == \A r \in exported : \E k \in DOMAIN table : table[k].timestamp = r.timestamp
First == \A k \in DOMAIN table : \E j \in DOMAIN history :
           history[j] = <<"export", table[k]>> /\ \A l \in 1..(j - 1) : Len(history[l]) = 2 => history[l][2].timestamp # table[k].timestamp
\* a right row is accepted with every map, and every change to it is not
Accepts == \A r \in exported, o \in Maps : WrongCells(r, "America/Chicago", o, RowOf(r, o)) = {}
Others(v) == {<<>>, <<12345>>, <<1>>, IF v = <<>> THEN <<0>> ELSE <<v[1] + 1>>} \ {v}
Rejects == \A r \in exported, o \in Maps :
  LET row == RowOf(r, o) IN
  \A c \in DOMAIN row \ {"timestamp_utc"} : \A v \in Others(row[c]) : WrongCells(r, "America/Chicago", o, [row EXCEPT ![c] = v]) # {}

\* shapes of histories for the driver: which connection exports which record
Steps == {<<"export", w, v, e>> : w \in {1, 2}, v \in {0, 1}, e \in {1, 2}} \cup {<<"reconnect", 1>>}
GenNext == /\ Len(history) < Depth
           /\ \E s \in Steps : history' = Append(history, s) /\ (Out => PrintT("BEHAVIOUR " \o ToJson(history')))
           /\ UNCHANGED <<table, exported>>
=============================================================================
