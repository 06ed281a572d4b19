----------------------------- MODULE MCSummaries -----------------------------
(* The recalculation as a procedure over a small archive: days in the order    *)
(* given, then weeks, months and years, where totals of longer periods and     *)
(* times of their extremes come from the shorter summaries as they stand.      *)
(* What the rows must be is stated over the archive alone.                     *)
EXTENDS Calendar, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS Depth, MostRecords, Out

S == INSTANCE Summaries

\* five days about the turn of a year, of a month and of ISO weeks
Days == << <<2015, 12, 31>>, <<2016, 1, 1>>, <<2016, 1, 3>>, <<2016, 1, 4>>, <<2016, 2, 1>> >>
Lists == {<<k>> : k \in 1..5} \cup {<<2, 1>>, <<4, 5, 4>>, <<1, 2, 3, 4, 5>>, <<5, 4, 3, 2, 1>>}
Values == {-1, 0}
Minute(k) == 1440 * DayNumber(Days[k][1], Days[k][2], Days[k][3])
AllKeys == S!Touched({Days[k] : k \in 1..5})

VARIABLES archive,      \* set of <<minute, value>>
          rows,         \* from keys to [low, time, sum, parts]
          fresh, current, history
vars == <<archive, rows, fresh, current, history>>

In(k) == {p \in archive : S!Within(k, p[1])}
LowOf(ps) == IF ps = {} THEN <<>> ELSE <<S!Lowest(ps)>>
SumOf(ps) == IF ps = {} THEN <<>> ELSE <<S!Sum(ps)>>
SumParts(table, type, k) ==
  LET some == {q \in DOMAIN table : q[1] = type /\ S!First(k) <= S!First(q) /\ S!First(q) <= S!Last(k) /\ table[q].parts # <<>>} IN
  IF some = {} THEN <<>> ELSE <<FoldSet(LAMBDA q, s : table[q].parts[1] + s, 0, some)>>
\* one unit of work
Unit(table, k) ==
  LET ps == In(k)
      low == LowOf(ps)
      at == IF low = <<>> THEN {}
            ELSE IF k[1] \in {"DAILY", "WEEKLY"} THEN S!Moments(ps, low[1])
            ELSE {table[q].time[1] : q \in {r \in DOMAIN table : r[1] = "DAILY" /\ S!First(k) <= S!First(r) /\ S!First(r) <= S!Last(k)
                                                                 /\ table[r].low = low}}
      parts == CASE k[1] = "DAILY" -> SumOf(ps) [] k[1] = "YEARLY" -> SumParts(table, "MONTHLY", k) [] OTHER -> SumParts(table, "DAILY", k)
  IN [q \in DOMAIN table \cup {k} |->
        IF q = k THEN [low |-> low, sum |-> SumOf(ps), parts |-> parts, time |-> IF at = {} THEN <<>> ELSE <<S!Earliest(at)>>] ELSE table[q]]
RECURSIVE Units(_, _)
Units(table, ks) == IF ks = <<>> THEN table ELSE Units(Unit(table, Head(ks)), Tail(ks))
RECURSIVE Once(_)
Once(s) == IF s = <<>> THEN <<>>
           ELSE IF \E j \in 2..Len(s) : s[j] = s[1] THEN Once(Tail(s)) ELSE <<Head(s)>> \o Once(Tail(s))
Map(f(_), s) == [j \in DOMAIN s |-> f(Days[s[j]])]
Procedure(table, list) == Units(table, Once(Map(S!DayKey, list)) \o Once(Map(S!WeekKey, list)) \o Once(Map(S!MonthKey, list)) \o Once(Map(S!YearKey, list)))

Init == archive = {} /\ rows = [k \in {} |-> {}] /\ fresh = {} /\ current = {} /\ history = <<>>
Arrive(k, v) ==
  LET t == Minute(k) + Cardinality({p \in archive : p[1] \div 1440 = Minute(k) \div 1440}) IN
  /\ Cardinality(archive) < MostRecords
  /\ archive' = archive \cup {<<t, v>>} /\ fresh' = fresh \ {k} /\ current' = {q \in current : ~S!Within(q, t)} /\ UNCHANGED rows
Recalculate(list) ==
  /\ rows' = Procedure(rows, list) /\ fresh' = fresh \cup {list[j] : j \in DOMAIN list}
  /\ current' = current \cup S!Touched({Days[list[j]] : j \in DOMAIN list}) /\ UNCHANGED archive
Next == /\ Len(history) < Depth
        /\ \/ \E k \in 1..5, v \in Values : Arrive(k, v) /\ history' = Append(history, <<"records", k, v>>)
           \/ \E list \in Lists : Recalculate(list) /\ history' = Append(history, <<"recalculate", list>>)

AllFresh(k) == \A j \in 1..5 : (\E p \in archive : S!Within(k, p[1]) /\ p[1] \div 1440 = Minute(j) \div 1440) => j \in fresh
\* a row recalculated since the last record of its period came is the exact aggregate of the archive
Exact == \A k \in current : rows[k].low = LowOf(In(k)) /\ rows[k].sum = SumOf(In(k))
\* and once the days are recalculated too, so are what it takes from them and the time
ExactOnceFresh == \A k \in current : AllFresh(k) =>
  /\ rows[k].parts = SumOf(In(k))
  /\ rows[k].time = (IF In(k) = {} THEN <<>> ELSE <<S!Earliest(S!Moments(In(k), S!Lowest(In(k))))>>)
\* a time is always in its period, at a record of that value
TimesWithin == \A k \in DOMAIN rows : rows[k].time # <<>> => S!Within(k, rows[k].time[1]) /\ <<rows[k].time[1], rows[k].low[1]>> \in archive
\* what trace validation demands of a time holds of the procedure
Demanded == \A k \in current : S!TimeOk(k, <<rows[k].low, In(k)>>, FALSE, AllFresh(k), rows[k].time)
\* only the periods of the dates have rows, and doing it again changes nothing
Idempotent == \A list \in Lists : LET once == Procedure(rows, list) IN
                Procedure(once, list) = once /\ DOMAIN once = DOMAIN rows \cup S!Touched({Days[list[j]] : j \in DOMAIN list})
Others == [][\A list \in Lists : history' = Append(history, <<"recalculate", list>>) =>
               \A k \in DOMAIN rows \ S!Touched({Days[list[j]] : j \in DOMAIN list}) : rows'[k] = rows[k]]_vars
\* the order of the dates makes no difference
AnyOrder == Procedure(rows, <<1, 2, 3, 4, 5>>) = Procedure(rows, <<5, 4, 3, 2, 1>>)
View == <<archive, rows, fresh, current, Len(history)>>

GenNext == /\ Len(history) < Depth /\ UNCHANGED <<archive, rows, fresh, current>>
           /\ \/ \E k \in 1..5 : history' = Append(history, <<"records", k>>)
              \/ \E list \in Lists : history' = Append(history, <<"recalculate", list>>)
           /\ (Out /\ history' # <<>> /\ history'[Len(history')][1] = "recalculate" /\ Len(history') >= Depth - 1) => PrintT("BEHAVIOUR " \o ToJson(history'))
=============================================================================
