------------------------------- MODULE Files --------------------------------
(* The monthly WeatherLink database file and its import.                      *)
(*                                                                            *)
(* A file is a header (16 bytes version, 4 bytes record count, 32 day indexes *)
(* of 6 bytes, the first of which is unused) followed by the 88-byte records  *)
(* of the days in order: each day that has any starts with the two records of *)
(* its summary.  Import is a scan over that sequence: the state is <<day, r,  *)
(* offset>>, each step consumes a summary (r = 0) or an interval record.      *)
EXTENDS Codec

HeaderLength == 20 + 32 * 6
Count(b, day) == S16(b, 20 + 6 * day)
Records(b, day) == IF Count(b, day) >= 2 THEN Count(b, day) - 2 ELSE 0
HasDay(b, day) == Count(b, day) >= 2

\* what one step of the scan consumes: <<kind, day, offset>>
Segment(b, offset, n) == SubSeq(b, offset + 1, offset + n)

RECURSIVE Days(_, _, _)
\* all steps of the scan, from the given day and offset on
Days(b, day, offset) ==
  IF day > 31 THEN <<>>
  ELSE IF ~HasDay(b, day) THEN Days(b, day + 1, offset)
  ELSE <<  <<"summary", day, offset>>  >>
       \o [r \in 1..Records(b, day) |-> <<"record", day, offset + SummaryLength + WlkLength * (r - 1)>>]
       \o Days(b, day + 1, offset + SummaryLength + WlkLength * Records(b, day))
Steps(b) == Days(b, 1, HeaderLength)

StepSound(b, ym, s) ==
  /\ ValidDate(ym[1], ym[2], s[2])
  /\ IF s[1] = "summary" THEN SummarySound(Segment(b, s[3], SummaryLength)) ELSE WlkSound(Segment(b, s[3], WlkLength))
\* (SubSeq beyond the end of the file is guarded by the length test)
StepFits(b, s) == s[3] + (IF s[1] = "summary" THEN SummaryLength ELSE WlkLength) <= Len(b)
FileSound(b, ym) ==
  /\ Len(b) >= HeaderLength
  /\ \A i \in DOMAIN Steps(b) : StepFits(b, Steps(b)[i]) /\ StepSound(b, ym, Steps(b)[i])

RecordSteps(b) == SelectSeq(Steps(b), LAMBDA s : s[1] = "record")
SummarySteps(b) == SelectSeq(Steps(b), LAMBDA s : s[1] = "summary")
\* the positions (among all records) of the records of a day
PositionsOf(b, day) == LET r == RecordSteps(b) IN
                       SelectSeq([i \in DOMAIN r |-> i], LAMBDA i : r[i][2] = day)

-----------------------------------------------------------------------------
(* The month a file is named after: ".../YYYY-MM.wlk", as character codes.    *)

Digit(c) == c \in 48..57
Suffix(name) == SubSeq(name, Len(name) - 10, Len(name))
NameSound(name) ==
  /\ Len(name) >= 11
  /\ LET s == Suffix(name) IN
     /\ \A i \in {1, 2, 3, 4, 6, 7} : Digit(s[i])
     /\ s[5] = 45 /\ s[8] = 46 /\ s[9] = 119 /\ s[10] = 108 /\ s[11] = 107
NameMonth(name) == LET s == Suffix(name) d(i) == s[i] - 48 IN
                   <<1000 * d(1) + 100 * d(2) + 10 * d(3) + d(4), 10 * d(6) + d(7)>>
=============================================================================
