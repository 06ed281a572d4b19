------------------------------- MODULE Record -------------------------------
(* Records: named values that are read and changed as attributes or as items,  *)
(* copied, serialised, and may contain other records (a file's header contains *)
(* its day indexes, in a list).                                                *)
(*                                                                             *)
(* State: heap - a sequence of objects [cls, fields], fields from names to     *)
(* values; a value is [ref |-> 0, text |-> what it is] or [ref |-> the object   *)
(* it is, text |-> ""].  slots - which object each of the user's variables is,  *)
(* or 0.  A list is an object of class "list" with fields "0", "1", ...         *)
(*                                                                             *)
(* Operations e on the record in slot e.slot (the ways e.how they are done):    *)
(*   new    a record of class and contents e.tree                               *)
(*   put    e.name := the text e.text, or (e.from > 0) what slot e.from holds   *)
(*          attr, item, update; setdefault only if there is none                *)
(*   drop   item, pop: KeyError if there is none; popdefault: nothing happens    *)
(*   get    attr, item, get, default (getattr with one), hasattr, in            *)
(*   copy   to slot e.to: copy, construct share what the fields hold; deepcopy,  *)
(*          pickle copy everything                                              *)
(*   inner  slot e.to := the record or list that e.name holds                    *)
EXTENDS Integers, Sequences, FiniteSets

Text(t) == [ref |-> 0, text |-> t]
Ref(id) == [ref |-> id, text |-> ""]
With(fields, name, value) == [n \in DOMAIN fields \cup {name} |-> IF n = name THEN value ELSE fields[n]]
Without(fields, name) == [n \in DOMAIN fields \ {name} |-> fields[n]]

\* what is reachable from an object (there are no cycles)
RECURSIVE Reach(_, _)
Reach(heap, id) ==
  {id} \cup UNION {Reach(heap, heap[id].fields[n].ref) : n \in {m \in DOMAIN heap[id].fields : heap[id].fields[m].ref > 0}}

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

\* <<heap, id>> of a copy in which shared parts are shared again
Deep(heap, id) ==
  LET old == Sorted(Reach(heap, id))
      new == [o \in Reach(heap, id) |-> Len(heap) + (CHOOSE k \in DOMAIN old : old[k] = o)]
      copied(o) == [cls |-> heap[o].cls,
                    fields |-> [n \in DOMAIN heap[o].fields |->
                                IF heap[o].fields[n].ref > 0 THEN Ref(new[heap[o].fields[n].ref]) ELSE heap[o].fields[n]]]
  IN <<heap \o [k \in DOMAIN old |-> copied(old[k])], new[id]>>

\* <<heap, id>> of an object with the contents of a tree [cls, text, items], items a set of <<name, tree>>; text trees have cls ""
RECURSIVE Load(_, _), LoadAll(_, _, _)
Load(heap, tree) ==
  LET parts == LoadAll(heap, tree.items, [n \in {} |-> Text("")])
  IN <<Append(parts[1], [cls |-> tree.cls, fields |-> parts[2]]), Len(parts[1]) + 1>>
LoadAll(heap, items, fields) ==
  IF items = {} THEN <<heap, fields>>
  ELSE LET i == CHOOSE x \in items : TRUE IN
       IF i[2].cls = "" THEN LoadAll(heap, items \ {i}, With(fields, i[1], Text(i[2].text)))
       ELSE LET l == Load(heap, i[2]) IN LoadAll(l[1], items \ {i}, With(fields, i[1], Ref(l[2])))

\* and back
RECURSIVE View(_, _)
ValueView(heap, v) == IF v.ref = 0 THEN [cls |-> "", text |-> v.text, items |-> {}] ELSE View(heap, v.ref)
View(heap, id) ==
  [cls |-> heap[id].cls, text |-> "", items |-> {<<n, ValueView(heap, heap[id].fields[n])>> : n \in DOMAIN heap[id].fields}]

\* what may be done: nothing to a record that is not there or that would contain itself
Possible(s, e) ==
  CASE e.op = "new" -> TRUE
    [] s.slots[e.slot] = 0 -> FALSE
    [] s.heap[s.slots[e.slot]].cls = "list" -> e.op \in {"inner", "copy"} /\ e.how # "construct"
    [] e.op = "put" -> IF e.from = 0 THEN TRUE ELSE IF s.slots[e.from] = 0 THEN FALSE ELSE s.slots[e.slot] \notin Reach(s.heap, s.slots[e.from])
    [] OTHER -> TRUE

Nothing == [ref |-> 0, text |-> "None"]
Default == [ref |-> 0, text |-> "s:default"]
Truth(b) == [ref |-> 0, text |-> IF b THEN "B:True" ELSE "B:False"]

\* <<state afterwards, outcome, what is given back>>
Apply(s, e) ==
  IF e.op = "new" THEN LET l == Load(s.heap, e.tree) IN <<[heap |-> l[1], slots |-> [s.slots EXCEPT ![e.slot] = l[2]]], "ok", Nothing>>
  ELSE
  LET id == s.slots[e.slot]
      o == s.heap[id]
      there == e.name \in DOMAIN o.fields
      changed(fields) == [s EXCEPT !.heap = [s.heap EXCEPT ![id] = [o EXCEPT !.fields = fields]]]
  IN
  CASE e.op = "put" ->
         LET v == IF e.from > 0 THEN Ref(s.slots[e.from]) ELSE Text(e.text) IN
         IF e.how = "setdefault" /\ there THEN <<s, "ok", o.fields[e.name]>>
         ELSE <<changed(With(o.fields, e.name, v)), "ok", IF e.how = "setdefault" THEN v ELSE Nothing>>
    [] e.op = "drop" ->
         IF ~there THEN IF e.how = "popdefault" THEN <<s, "ok", Default>> ELSE <<s, "KeyError", Nothing>>
         ELSE <<changed(Without(o.fields, e.name)), "ok", IF e.how = "item" THEN Nothing ELSE o.fields[e.name]>>
    [] e.op = "get" ->
         (CASE e.how \in {"hasattr", "in"} -> <<s, "ok", Truth(there)>>
            [] there -> <<s, "ok", o.fields[e.name]>>
            [] e.how = "attr" -> <<s, "AttributeError", Nothing>>
            [] e.how = "item" -> <<s, "KeyError", Nothing>>
            [] e.how = "get" -> <<s, "ok", Nothing>>
            [] e.how = "default" -> <<s, "ok", Default>>)
    [] e.op = "copy" ->
         LET c == IF e.how \in {"copy", "construct"} THEN <<Append(s.heap, o), Len(s.heap) + 1>> ELSE Deep(s.heap, id)
         IN <<[heap |-> c[1], slots |-> [s.slots EXCEPT ![e.to] = c[2]]], "ok", Nothing>>
    [] e.op = "inner" ->
         IF there /\ o.fields[e.name].ref > 0 THEN <<[s EXCEPT !.slots = [s.slots EXCEPT ![e.to] = o.fields[e.name].ref]], "ok", Nothing>>
         ELSE <<s, "ok", Nothing>>

Empty(n) == [heap |-> <<>>, slots |-> [k \in 1..n |-> 0]]
=============================================================================
