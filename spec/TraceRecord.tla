----------------------------- MODULE TraceRecord ----------------------------
(* Recorded histories of records against Record.                              *)
EXTENDS TraceLib, Record

RECURSIVE Norm(_)
Norm(v) == [cls |-> v.cls, text |-> v.text, items |-> {<<v.items[k].n, Norm(v.items[k].v)>> : k \in DOMAIN v.items}]

Free == [cls |-> "-", text |-> "", items |-> {}]
SlotView(s, k) == IF s.slots[k] = 0 THEN Free ELSE View(s.heap, s.slots[k])

StepBad(s, e) ==
  LET r == Apply(s, e)
      t == r[1]
  IN Clause(e.out = r[2], "outcome_of_" \o e.op \o "_" \o e.how)
     \cup Clause(e.out # "ok" \/ r[2] # "ok" \/ Norm(e.val) = ValueView(t.heap, r[3]), "value_of_" \o e.op \o "_" \o e.how)
     \cup UNION {Clause(Norm(e.views[k]) = SlotView(t, k), "contents_after_" \o e.op \o "_" \o e.how) : k \in DOMAIN t.slots}
     \cup Clause(Range(e.same) = {<<a, b>> \in (DOMAIN t.slots) \X (DOMAIN t.slots) : a < b /\ t.slots[a] = t.slots[b] /\ t.slots[a] > 0},
                 "identity_after_" \o e.op \o "_" \o e.how)
     \cup Clause(e.differ = <<>>, "attributes_are_items")
     \cup UNION {Clause(t.slots[p[1]] > 0 /\ t.slots[p[2]] > 0 /\ p \in Range(e.equal), "equality_after_" \o e.op \o "_" \o e.how)
                 : p \in {q \in (DOMAIN t.slots) \X (DOMAIN t.slots) :
                          q[1] < q[2] /\ t.slots[q[1]] > 0 /\ t.slots[q[2]] > 0 /\ SlotView(t, q[1]) = SlotView(t, q[2])}}
     \cup UNION {Clause(DOMAIN t.heap[t.slots[p[1]]].fields = DOMAIN t.heap[t.slots[p[2]]].fields, "inequality_after_" \o e.op \o "_" \o e.how)
                 : p \in {q \in Range(e.equal) : t.slots[q[1]] > 0 /\ t.slots[q[2]] > 0}}

RECURSIVE HistoryBad(_, _, _)
HistoryBad(s, steps, k) ==
  IF k > Len(steps) THEN {}
  ELSE LET e == [steps[k] EXCEPT !.tree = Norm(steps[k].tree)]
           bad == StepBad(s, e)
       IN IF bad # {} THEN bad ELSE HistoryBad(Apply(s, e)[1], steps, k + 1)

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, HistoryBad(Empty(Cases[i].slots), Cases[i].steps, 1))
=============================================================================
