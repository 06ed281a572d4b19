------------------------------- MODULE Import --------------------------------
(* Database files brought into the archive.  A client opens a file, which      *)
(* gives it the file's interval records in order, and exports them one by one; *)
(* it may stop anywhere and anyone may import any file at any time.  A record   *)
(* is <<file, position>>; a row is identified by its time stamp, so exporting   *)
(* a record whose time stamp is there fails and changes nothing.                *)
EXTENDS Naturals, Sequences, FiniteSets

\* stamps: a function from records to time stamps
IsThere(stored, stamps, r) == \E q \in stored : stamps[q] = stamps[r]
Put(stored, stamps, r) == IF IsThere(stored, stamps, r) THEN stored ELSE stored \cup {r}
\* a file of n records from position k on; what exporting a number of them stores and which of the exports succeed
RECURSIVE PutAll(_, _, _, _, _)
PutAll(stored, stamps, f, k, n) ==
  IF n = 0 THEN [stored |-> stored, ok |-> <<>>]
  ELSE LET rest == PutAll(Put(stored, stamps, <<f, k>>), stamps, f, k + 1, n - 1) IN
       [rest EXCEPT !.ok = <<~IsThere(stored, stamps, <<f, k>>)>> \o @]
=============================================================================
