---------------------------- MODULE TraceCodec ----------------------------
(* Recorded calls of the codec functions against Codec.                     *)
EXTENDS TraceLib, Codec

\* the outcome of decoding: sound bytes give a record made of exactly `length` bytes, anything else an error
Decoded(c, sound, length, bad) ==
  IF sound
  THEN IF c.out # "ok" THEN {"rejected_sound"}
       ELSE bad \cup Clause(c.used = length, "consumed_other_length")
  ELSE Clause(c.out \notin {"ok", "none", "hang"}, "accepted_unsound")

CrcBad(c) == LET v == Crc(c.data) IN
  Clause(c.value = v, "crc") \cup Clause(c.text = v, "text")
  \cup Clause(c.whole = 0, "self_check")
BurstBad(c) == Clause(c.value = Crc(c.data), "crc") \cup Clause(c.other = Crc(c.corrupted), "crc_corrupted")
  \cup Clause(c.value # c.other, "burst_undetected")

StampsBad(c) ==
  Clause(\A i \in DOMAIN c.t : c.packed[i] = Pack(c.t[i]), "pack")
  \cup Clause(\A i \in DOMAIN c.t : c.seconds[i] = Pack(c.t[i]), "pack_seconds")
  \cup Clause(\A i \in DOMAIN c.t : c.back[i] = Unpack(Pack(c.t[i])), "unpack")

Earlier(a, b) == \E k \in 1..5 : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
OrderBad(c) == Clause(\A i \in DOMAIN c.a : c.less[i] = (IF Earlier(c.a[i], c.b[i]) THEN 1 ELSE 0), "order")

Bad(c) == CASE c.op = "loop2" -> Decoded(c, Loop2Framed(c.b), Loop2Length, Loop2Bad(c.b, c.rec))
            [] c.op = "download" ->
                 IF DownloadEmpty(c.b)
                 THEN Clause(c.out = "none", "empty_record_yields_something") \cup Clause(c.used = DownloadLength, "consumed_other_length")
                 ELSE Decoded(c, DownloadSound(c.b), DownloadLength, DownloadBad(c.b, c.minutes, c.rec))
            [] c.op = "wlk" -> Decoded(c, WlkSound(c.b), WlkLength, WlkBad(c.b, c.ymd, c.rec))
            [] c.op = "summary" -> Decoded(c, SummarySound(c.b), SummaryLength, SummaryBad(c.b, c.ymd, c.rec))
            [] c.op = "crc" -> CrcBad(c)
            [] c.op = "burst" -> BurstBad(c)
            [] c.op = "stamps" -> StampsBad(c)
            [] c.op = "order" -> OrderBad(c)
            [] c.op = "other" -> Clause(c.same = 1, "passes_through")

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
