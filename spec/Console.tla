------------------------------ MODULE Console -------------------------------
(* A conversation between the communicator and the console over one byte      *)
(* stream, with the console's setting memory.                                 *)
(*                                                                            *)
(* State: s.stream  bytes the console has sent that were not consumed yet      *)
(*        s.eof     the console has closed its side                           *)
(*        s.mem     the setting memory, mem[a + 1] = byte at address a        *)
(* An event e is one call; e.resp is what the console sends in response to    *)
(* the command (appended to the stream) and e.eof whether it then closes.     *)
(* Result(s, e) gives what the call has to do: the bytes it sends, its        *)
(* outcome ("ok", or the error), its value and the state afterwards.          *)
EXTENDS Codec

Ack == 6
Refused(b) == b = 21 \/ b = 33

\* "EEBRD aa ll\n", "EEBWR aa ll\n" and "LPS t n\n" as bytes
ReadCommand(addr, len) == <<69, 69, 66, 82, 68, 32>> \o addr \o <<32>> \o len \o <<10>>
WriteCommand(addr, len) == <<69, 69, 66, 87, 82, 32>> \o addr \o <<32>> \o len \o <<10>>
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
PollCommand(type, n) == <<76, 80, 83, 32>> \o Decimal(type) \o <<32>> \o Decimal(n) \o <<10>>

CrcBytes(b) == LET v == Crc(b) IN <<v \div 256, v % 256>>

\* the single byte that acknowledges a command: <<outcome, stream afterwards>>
Acknowledge(stream) ==
  IF stream = <<>> THEN <<"invalid", <<>> >>
  ELSE <<IF Head(stream) = Ack THEN "ok" ELSE IF Refused(Head(stream)) THEN "nak" ELSE "invalid", Tail(stream)>>

Take(stream, n) == SubSeq(stream, 1, n)
Drop(stream, n) == SubSeq(stream, n + 1, Len(stream))

Done(sent, out, value, stream, s, e) ==
  [sent |-> sent, out |-> out, value |-> value, next |-> [stream |-> stream, eof |-> s.eof \/ e.eof, mem |-> s.mem]]

\* reading n setting bytes and their checksum
Reading(s, e, addr, len, n, confirm) ==
  LET sent == ReadCommand(addr, len)
      a == Acknowledge(s.stream \o e.resp)
  IN IF a[1] # "ok" THEN Done(sent, a[1], <<>>, a[2], s, e)
     ELSE IF Len(a[2]) < n + 2 THEN Done(sent, "short", <<>>, <<>>, s, e)
     ELSE LET setting == Take(a[2], n + 2) IN
          IF confirm /\ Crc(setting) # 0 THEN Done(sent, "crc", <<>>, Drop(a[2], n + 2), s, e)
          ELSE Done(sent, "ok", setting, Drop(a[2], n + 2), s, e)

Read(s, e) == LET r == Reading(s, e, e.addr, e.len, e.n, e.confirm) IN
              IF r.out = "ok" /\ ~e.ret THEN [r EXCEPT !.value = Take(r.value, e.n)] ELSE r

SetupAddress == <<50, 66>>
SetupLength == <<48, 49>>
RainMask == 48
Bit(s, e, mask) == LET r == Reading(s, e, SetupAddress, SetupLength, 1, TRUE) IN
                   IF r.out = "ok" THEN [r EXCEPT !.value = <<r.value[1] & mask>>] ELSE r

\* writing: nothing is sent for a value of another length, nothing but the command unless that is acknowledged
Stored(mem, at, data) == [i \in DOMAIN mem |-> IF i - 1 >= at /\ i - 1 < at + Len(data) THEN data[i - at] ELSE mem[i]]
Write(s, e) ==
  IF Len(e.data) # e.n THEN Done(<<>>, "ValueError", <<>>, s.stream, s, [eof |-> FALSE])
  ELSE LET command == WriteCommand(e.addr, e.len)
           a == Acknowledge(s.stream \o e.resp)
       IN IF a[1] # "ok" THEN Done(command, a[1], <<>>, a[2], s, e)
          ELSE LET r == Done(command \o e.data \o CrcBytes(e.data), "ok", <<>>, a[2], s, e)
               IN [r EXCEPT !.next.mem = Stored(s.mem, e.at, e.data)]

\* the packets of a poll: <<outcome, packets>>
Packet(stream, k) == SubSeq(stream, Loop2Length * (k - 1) + 1, Loop2Length * k)
Complete(stream, k) == Len(stream) >= Loop2Length * k
RECURSIVE Packets(_, _, _)
Packets(stream, n, k) ==
  IF k > n THEN <<>>
  ELSE IF Complete(stream, k) /\ Loop2Framed(Packet(stream, k)) THEN <<Packet(stream, k)>> \o Packets(stream, n, k + 1)
  ELSE <<>>

Poll(s, e) ==
  LET sent == PollCommand(e.type, e.n)
      a == Acknowledge(s.stream \o e.resp)
  IN IF a[1] # "ok" THEN Done(sent, a[1], <<>>, a[2], s, e)
     ELSE LET p == Packets(a[2], e.n, 1) IN
          IF Len(p) < e.n THEN Done(sent, "error", <<>>, <<>>, s, e)
          ELSE Done(sent, "ok", p, Drop(a[2], Loop2Length * e.n), s, e)

\* a background session left to itself, stopped from within the callback of packet e.stop if that is not 0; the console sends as
\* many packets as are delivered
Background(s, e) ==
  LET command == PollCommand(e.type, e.n)
      a == Acknowledge(s.stream \o e.resp)
      m == IF e.stop = 0 THEN e.n ELSE e.stop
  IN IF a[1] # "ok" THEN Done(command, a[1], <<>>, a[2], s, e)
     ELSE Done(command \o (IF m < e.n THEN <<13>> ELSE <<>>), "ok", Packets(a[2], m, 1), Drop(a[2], Loop2Length * m), s, e)

Result(s, e) == CASE e.k = "read" -> Read(s, e)
                  [] e.k = "bit" -> Bit(s, e, e.mask)
                  [] e.k = "rain" -> Bit(s, e, RainMask)
                  [] e.k = "write" -> Write(s, e)
                  [] e.k = "poll" -> Poll(s, e)
                  [] e.k = "background" -> Background(s, e)
                  \* a new connection: whatever was on the way is gone
                  [] e.k = "reconnect" -> [sent |-> <<>>, out |-> "ok", value |-> <<>>,
                                           next |-> [stream |-> <<>>, eof |-> FALSE, mem |-> s.mem]]
=============================================================================
