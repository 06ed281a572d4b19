-------------------------------- MODULE Wind --------------------------------
(* The 10-minute wind maximum of a list of records. *)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a >= b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

-----------------------------------------------------------------------------
(* The wind window.  A record is [s |-> <<>> or <<speed in tenths>>,         *)
(* d |-> direction (<<>> or <<k>>), e |-> its end in minutes, m |-> covered  *)
(* hundredths of minutes].                                                   *)

RECURSIVE MinutesOf(_, _)
\* the minutes of record r, the k-th last to the last
MinutesOf(r, k) == IF k = 0 THEN <<>>
                   ELSE <<[s |-> IF r.s = <<>> THEN 0 ELSE r.s[1], d |-> r.d, t |-> r.e - k + 1]>> \o MinutesOf(r, k - 1)
Whole(r) == r.m \div 100

\* all minutes and the numbers of minutes at which a record ends
RECURSIVE Walk(_, _, _, _)
Walk(recs, i, minutes, ends) ==
  IF i > Len(recs) THEN [minutes |-> minutes, ends |-> ends]
  ELSE LET m == minutes \o MinutesOf(recs[i], Whole(recs[i])) IN Walk(recs, i + 1, m, ends \cup {Len(m)})

\* the result: speed in hundredths, direction, first and last minute; or none
WindowMax(recs) ==
  IF \E i \in 1..Len(recs) : Whole(recs[i]) > 10 THEN [any |-> FALSE]
  ELSE LET w == Walk(recs, 1, <<>>, {})
           sum == [e \in {x \in w.ends : x >= 10} |-> SumSeq([j \in 1..10 |-> w.minutes[e - 10 + j].s])]
           best == {e \in DOMAIN sum : sum[e] > 0 /\ \A f \in DOMAIN sum : sum[f] <= sum[e]}
       IN IF best = {} THEN [any |-> FALSE]
          ELSE LET e == CHOOSE b \in best : \A f \in best : b <= f
                   ten == [j \in 1..10 |-> w.minutes[e - 10 + j]]
                   count(d) == Cardinality({j \in 1..10 : ten[j].d = d})
               IN [any |-> TRUE, speed |-> sum[e], start |-> ten[1].t, end |-> ten[10].t,
                   directions |-> {ten[j].d : j \in {k \in 1..10 : \A l \in 1..10 : count(ten[l].d) <= count(ten[k].d)}}]
=============================================================================
