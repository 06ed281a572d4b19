----------------------------- MODULE MCCodec -----------------------------
(* The specification's own obligations for the codec, exhaustively.         *)
EXTENDS Codec, TLC

VARIABLE x

------------------------------------------------------------------------
(* The checksum is linear and steps by 0 bytes are injective, and no error  *)
(* pattern within 16 bits (at any bit offset) has checksum 0.  Together: an  *)
(* error burst of at most 16 bits changes the checksum of any message.       *)

BIT == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
CrcInit == x \in {256 * k : k \in 0..255}
CrcNext == x % 256 = 0 /\ x' \in (x + 1)..(x + 255)
Stutter == FALSE /\ UNCHANGED x
CrcLinear == \A k \in 1..16 : CrcStep(x ^^ BIT[k], 0) = (CrcStep(x, 0) ^^ CrcStep(BIT[k], 0))
CrcInput == LET b == x % 256 s == x - b IN CrcStep(s, b) = CrcStep(s ^^ (b * 256), 0)
CrcInjective == (x # 0) => CrcStep(x, 0) # 0
Shifted(p, o) == LET w == p * BIT[o + 1] IN <<w \div 65536, (w \div 256) % 256, w % 256>>
CrcBursts == (x # 0) => \A o \in 0..7 : Crc(Shifted(x, o)) # 0
\* appending the checksum makes the whole zero: from any state s, the bytes of s lead to 0
CrcSelfCheck == CrcFrom(x, <<x \div 256, x % 256>>, 1) = 0

------------------------------------------------------------------------
(* Timestamps: walk through every day from 2000 to 2127.                     *)

DayInit == x = <<2000, 1, 1>>
DayNext == x # <<2127, 12, 31>> /\ x' = AddDays(x[1], x[2], x[3], 1)
At(k) == <<x[1], x[2], x[3], k \div 60, k % 60>>
Lower(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Minutes == {0, 59, 60, 719, 1439, (x[1] * 400 + x[2] * 37 + x[3] * 11) % 1440}
           \cup (IF x[2] = 2 /\ x[3] = 29 THEN 0..1439 ELSE {})
RoundTrip(k) == LET t == At(k) p == Pack(t) IN
                /\ Unpack(p) = t /\ ValidStamp(p) /\ p[1] \in 0..65535 /\ p[2] \in 0..2359
                /\ (k < 1439 => Lower(p, Pack(At(k + 1))))
DayRoundTrip == \A k \in Minutes : RoundTrip(k)
DayRoundTripAll == \A k \in 0..1439 : RoundTrip(k)
DayOrder == LET n == AddDays(x[1], x[2], x[3], 1) IN
            Lower(Pack(At(1439)), Pack(<<n[1], n[2], n[3], 0, 0>>)) /\ AddDays(n[1], n[2], n[3], -1) = x
DayMinutes == MinuteOf(x[1], x[2], x[3], 1440) = MinuteOf(AddDays(x[1], x[2], x[3], 1)[1], AddDays(x[1], x[2], x[3], 1)[2],
                                                        AddDays(x[1], x[2], x[3], 1)[3], 0)

------------------------------------------------------------------------
(* Directions: sectors partition the circle and every sector is that of its  *)
(* compass point to within a quarter of a degree of the nearest.             *)

DegreeInit == x \in -5..70000
DegreeSectors == IF x \in 1..360
                 THEN LET c == Compass(x)[1] off == ((40 * x - 900 * c + 7200) % 14400) - 7200 IN
                      off \in -460..460
                 ELSE Compass(x) = <<>>
DegreeOneEach == x \in 1..360 => Cardinality({k \in 0..15 : Compass(x) = <<k>>}) = 1
DegreeCodes == x \in 0..15 => Compass(CodeDegrees10(x) \div 10) = <<x>>
=============================================================================
