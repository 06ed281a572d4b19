---------------------------- MODULE TraceDerived ----------------------------
EXTENDS TraceLib, Derived, Big

\* wind run: speed (tenths) / 60 * minutes in units of 10^-24 (Big), to 20 decimals
RunIs(w, m, s, digits) == Le(Abs(Sub(Mul(<<s, digits>>, Z(600)), Mul(Z(w * m), ZG(1, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>)))), Z(1000000))

WindowBad(c) ==
  LET w == WindowMax(c.recs) IN
  IF ~w.any THEN Clause(c.r = <<<<>>, <<>>, <<>>, <<>>>>, "value_without_window")
  ELSE Clause(c.r[1] = <<w.speed>>, "speed")
       \cup Clause(Len(c.r[2]) = 1 /\ \E d \in w.directions : c.r[2][1] = d, "direction")
       \cup Clause(c.r[3] = <<w.start>>, "start") \cup Clause(c.r[4] = <<w.end>>, "end")

DerivedBad(c) ==
  IF c.ok # 1 THEN {"raised"}
  ELSE LET e == Expected(c.v, c.c) IN
       {k \in DOMAIN e : c.r[k] # e[k]}
       \cup (IF Positive(c.v.ws)
             THEN Clause(c.run # <<>> /\ RunIs(c.v.ws[1], c.minutes, c.run[1], c.run[2]), "wind_run_distance_total")
             ELSE Clause(c.run = <<>>, "wind_run_distance_total"))

Bad(c) == CASE c.op = "window" -> WindowBad(c) [] c.op = "derive" -> DerivedBad(c)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
