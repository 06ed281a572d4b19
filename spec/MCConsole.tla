----------------------------- MODULE MCConsole ------------------------------
(* Conversations as a state machine over a small console: what C02-C04 and    *)
(* C06 ask of every history, checked on all of them up to a length; and the   *)
(* shapes of these histories, written out for the driver to fill in.          *)
EXTENDS Console, TLC, Json

CONSTANTS Depth, Out, Kinds

\* the shapes of a call: its kind and what the console does
Acks == {"ack", "nak", "bang", "other", "eof"}
Shapes == [k : {"read"}, plan : Acks \cup {"short", "corrupt", "stale"}, confirm : BOOLEAN, ret : BOOLEAN]
          \cup [k : {"bit", "rain"}, plan : {"ack", "nak", "corrupt", "short"}, confirm : {TRUE}, ret : {FALSE}]
          \cup [k : {"write"}, plan : Acks \cup {"mismatch", "stale"}, confirm : {TRUE}, ret : {FALSE}]
          \cup [k : {"poll"}, plan : Acks \cup {"short", "malformed", "stale"}, confirm : {TRUE}, ret : {FALSE}]
          \cup [k : {"background"}, plan : {"ack", "nak", "other", "eof", "stopped"}, confirm : {TRUE}, ret : {FALSE}]
Chosen == {x \in Shapes : x.k \in Kinds}

\* a small instance of a shape: memory of two bytes, settings of one byte at address 0 or 1, polls of no packets
Small(x, s, at, v) ==
  LET ackbyte == CASE x.plan = "nak" -> <<21>> [] x.plan = "bang" -> <<33>> [] x.plan = "other" -> <<0>> [] x.plan = "eof" -> <<>>
                   [] x.plan = "stale" -> <<21, 0>> [] OTHER -> <<6>>
      data == SubSeq(s.mem, at + 1, at + 1)
      answer == IF ackbyte # <<6>> THEN ackbyte
                ELSE CASE x.k \in {"read", "bit", "rain"} ->
                            (CASE x.plan = "short" -> <<6>> \o data
                               [] x.plan = "corrupt" -> <<6>> \o data \o <<CrcBytes(data)[1], CrcBytes(data)[2] ^^ 1>>
                               [] OTHER -> <<6>> \o data \o CrcBytes(data))
                       [] OTHER -> <<6>>
  IN [k |-> x.k, at |-> at, addr |-> <<48 + at>>, len |-> <<49>>, n |-> IF x.k \in {"poll", "background"} THEN 0 ELSE 1,
      confirm |-> x.confirm, ret |-> x.ret, mask |-> 1, type |-> 2, stop |-> 0,
      data |-> IF x.plan = "mismatch" THEN <<v, v>> ELSE <<v>>, resp |-> answer, eof |-> x.plan \in {"eof", "short"}]

VARIABLES shapes, s, last, before
vars == <<shapes, s, last, before>>

Init == /\ shapes = <<>> /\ s = [stream |-> <<>>, eof |-> FALSE, mem |-> <<0, 5>>] /\ last = <<>>
        /\ before = s
Next == /\ Len(shapes) < Depth
        /\ \E x \in Chosen : \E at \in (IF Out THEN {0} ELSE {0, 1}) : \E v \in (IF Out THEN {3} ELSE {3, 7}) :
             LET t == IF s.eof THEN [s EXCEPT !.stream = <<>>, !.eof = FALSE] ELSE s
                 e == Small(x, t, at, v)
                 r == Result(t, e)
             IN /\ shapes' = Append(shapes, x)
                /\ before' = t
                /\ last' = <<e, r>>
                /\ s' = r.next
                /\ (Out /\ Len(shapes) + 1 = Depth) => PrintT("BEHAVIOUR " \o ToJson(shapes'))

LastShape == shapes[Len(shapes)]
E == last[1]
R == last[2]
\* the value of a write is on the wire exactly when it was acknowledged, and only then is memory changed, and only there
WriteOk == (last # <<>> /\ E.k = "write") =>
  /\ (R.out # "ok") => (s.mem = before.mem /\ Len(R.sent) \in {0, Len(WriteCommand(E.addr, E.len))})
  /\ (R.out = "ok") => (s.mem[E.at + 1] = E.data[1] /\ \A i \in DOMAIN s.mem : i # E.at + 1 => s.mem[i] = before.mem[i])
  /\ (LastShape.plan = "mismatch") => (R.sent = <<>> /\ s.stream = before.stream)
\* a read changes nothing and returns what is stored, or fails
ReadOk == (last # <<>> /\ E.k = "read") =>
  /\ s.mem = before.mem
  /\ (R.out = "ok" /\ LastShape.plan = "ack" /\ before.stream = <<>>) => R.value[1] = before.mem[E.at + 1]
  /\ (R.out # "ok") => R.value = <<>>
  /\ (LastShape.plan \in {"short", "corrupt"} /\ before.stream = <<>> /\ E.confirm) => R.out \in {"short", "crc"}
\* one byte decides, and is all that is consumed when the command is refused
OneByte == (last # <<>> /\ R.out \in {"nak", "invalid"}) =>
  LET all == before.stream \o E.resp IN
  /\ s.stream = (IF all = <<>> THEN <<>> ELSE Tail(all))
  /\ (all # <<>>) => (all[1] # 6 /\ (all[1] \in {21, 33}) = (R.out = "nak"))
=============================================================================
