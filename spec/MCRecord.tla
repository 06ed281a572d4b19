------------------------------ MODULE MCRecord ------------------------------
(* All histories of two variables up to a length, and what C37 demands of them; *)
(* also written out for the driver to replay on real records.                   *)
EXTENDS Record, TLC, Json

CONSTANTS Depth, Out

Names == {"wind_speed", "inner"}
Tree(c, t) == [cls |-> c, text |-> "", items |-> {<<"wind_speed", [cls |-> "", text |-> t, items |-> {}]>>}]
Base == [op |-> "", slot |-> 1, name |-> "", how |-> "", text |-> "", from |-> 0, to |-> 0, tree |-> Tree("", "")]
Other(k) == 3 - k
Ops == {[Base EXCEPT !.op = "new", !.slot = k, !.how = "kwargs", !.tree = Tree("LoopRecord", "I:7")] : k \in 1..2}
       \cup {[Base EXCEPT !.op = "put", !.slot = k, !.name = n, !.how = h, !.text = "I:8", !.from = f]
             : k \in 1..2, n \in Names, h \in {"attr", "item"}, f \in 0..2}
       \cup {[Base EXCEPT !.op = "drop", !.slot = k, !.name = n, !.how = "item"] : k \in 1..2, n \in Names}
       \cup {[Base EXCEPT !.op = "copy", !.slot = k, !.how = h, !.to = Other(k)] : k \in 1..2, h \in {"copy", "deepcopy", "pickle"}}
       \cup {[Base EXCEPT !.op = "inner", !.slot = k, !.name = "inner", !.to = j] : k \in 1..2, j \in 1..2}

VARIABLES history, state, before, out
Init == /\ history = <<>> /\ out = "ok" /\ before = Empty(2)
        /\ state = LET a == Load(<<>>, Tree("LoopRecord", "I:1")) b == Load(a[1], Tree("ArchiveIntervalRecord", "I:2"))
                   IN [heap |-> b[1], slots |-> <<a[2], b[2]>>]
Next == /\ Len(history) < Depth
        /\ \E e \in Ops :
             /\ Possible(state, e)
             /\ e.from # e.slot
             /\ LET r == Apply(state, e) IN
                /\ history' = Append(history, e)
                /\ before' = state
                /\ state' = r[1]
                /\ out' = r[2]
                /\ (Out /\ Len(history) + 1 = Depth) => PrintT("BEHAVIOUR " \o ToJson([n \in 1..Len(history') |->
                     [op |-> history'[n].op, slot |-> history'[n].slot, name |-> history'[n].name, how |-> history'[n].how,
                      text |-> history'[n].text, from |-> history'[n].from, to |-> history'[n].to]]))

Last == history[Len(history)]
Happened == history # <<>>
Reached(s, k) == Reach(s.heap, s.slots[k])

\* a change shows exactly where the changed record is reached
Local == Happened /\ Last.op \in {"put", "drop"} =>
  \A k \in 1..2 : before.slots[Last.slot] \notin Reached(before, k) => View(state.heap, state.slots[k]) = View(before.heap, before.slots[k])
\* a put is there; what was dropped is not; nothing else of the record changes
Effect == Happened /\ Last.op \in {"put", "drop"} =>
  LET now == state.heap[state.slots[Last.slot]].fields
      then == before.heap[before.slots[Last.slot]].fields
  IN /\ (Last.name \in DOMAIN now) = (Last.op = "put")
     /\ \A n \in DOMAIN then \ {Last.name} : n \in DOMAIN now /\ now[n] = then[n]
     /\ DOMAIN now \subseteq DOMAIN then \cup {Last.name}
     /\ (out = "KeyError") = (Last.op = "drop" /\ Last.name \notin DOMAIN then)
\* copies look the same and are other records; deep ones share nothing
Copied == Happened /\ Last.op = "copy" =>
  /\ View(state.heap, state.slots[Last.to]) = View(state.heap, state.slots[Last.slot])
  /\ state.slots[Last.to] # state.slots[Last.slot]
  /\ state.slots[Last.to] \notin 1..Len(before.heap)
  /\ Last.how # "copy" => Reached(state, Last.to) \cap (1..Len(before.heap)) = {}
NoCycles == \A k \in 1..2 : state.slots[k] > 0
=============================================================================
