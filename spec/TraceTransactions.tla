------------------------- MODULE TraceTransactions -------------------------
(* Recorded histories of operations with faults.  Contents are numbered; each *)
(* operation comes with its reference: outcome and trail without faults, from *)
(* the same contents, with for each change the rows it removed or added as    *)
(* <<key, version>>.                                                          *)
EXTENDS TraceLib, Transactions

\* a unit of work is one row, never seen half done: it changes once
Units(trail) == /\ \A j \in DOMAIN trail : j > 1 => Cardinality({r[1] : r \in Range(trail[j][3])}) = 1
                /\ \A j, k \in DOMAIN trail : (1 < j /\ j < k) => {r[1] : r \in Range(trail[j][3])} # {r[1] : r \in Range(trail[k][3])}

\* state: contents, connection of each exporter ("none", "up" or "lost"), what a failed operation has to lead to when repeated
Nobody == [w \in 1..2 |-> "none"]
Up(conn) == Cardinality({w \in DOMAIN conn : conn[w] = "up"})

OpBad(s, now, conn, goal) ==
  LET trail == s.ref.trail fired == s.fired up == conn[s.who] = "up" IN
  (IF ~up /\ s.out = "error" THEN Clause(s.after = now, "disconnected")
   ELSE IF fired # <<>> THEN Clause(s.out = "error", "raised") \cup Clause(s.after = Left(trail, fired), "left")
   ELSE Clause(<<s.out, s.result>> = s.ref.out, "outcome") \cup Clause(s.after = Final(trail), "contents"))
  \cup Clause(Before(trail) = now, "reference")
  \cup Clause(s.works => s.ref.out[1] = "ok", "works")          \* nothing in the data keeps it from succeeding
  \cup Clause(Units(trail), "units")
  \cup Clause((goal.what = s.what /\ fired = <<>> /\ up) => s.after = goal.contents, "repeated")

RECURSIVE Run(_, _, _, _, _, _)
Run(c, j, now, conn, goal, bad) ==
  IF j > Len(c.steps) THEN bad
  ELSE
  LET s == c.steps[j]
      none == [what |-> "", contents |-> 0]
      next == CASE s.do = "connect" -> IF s.out = "ok" THEN "up" ELSE conn[s.who]
                [] s.do = "op" -> Connection(conn[s.who], s.fired)
                [] s.do = "lose" -> "lost"
                [] OTHER -> "none"
      now2 == [conn EXCEPT ![s.who] = next]
      found == CASE s.do = "connect" -> Clause(s.out = (IF s.refused THEN "error" ELSE "ok"), "connect")
                 [] s.do = "op" -> OpBad(s, now, conn, goal)
                 [] s.do = "lose" -> {}
                 [] s.do = "disconnect" -> Clause(~s.faulty => s.out = "ok", "disconnect")
                                           \cup Clause(conn[s.who] = "none" => ~s.faulty, "idempotent")
                 [] s.do = "leave" -> Clause(s.raised => s.out = "body", "hidden")
                                      \cup Clause((~s.raised /\ ~s.faulty) => s.out = "ok", "leave")
                                      \cup Clause((~s.raised /\ s.faulty) => s.out \in {"ok", "close"}, "leave")
      goal2 == IF s.do # "op" THEN goal
               ELSE IF s.fired # <<>> /\ conn[s.who] = "up" THEN [what |-> s.what, contents |-> Final(s.ref.trail)]
               ELSE IF s.after = now THEN goal ELSE none
  IN Run(c, j + 1, s.after, now2, goal2, bad \cup found
         \cup Clause(s.sessions = Up(now2), "sessions")
         \cup Clause(s.do # "op" => s.after = now, "session_contents"))
Bad(c) == Run(c, 1, c.start, Nobody, [what |-> "", contents |-> 0], {})

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
