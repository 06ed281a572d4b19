-------------------------------- MODULE Big --------------------------------
(* Arithmetic beyond TLC's 32-bit integers.  A natural number is a little-   *)
(* endian sequence of digits in base 1000 without leading zeros (<<>> is 0); *)
(* an integer is <<sign, natural>> with sign -1, 0 or 1.                     *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RADIX == 1000

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))

RECURSIVE CarryFrom(_, _, _, _)
CarryFrom(a, i, carry, acc) ==
  IF i > Len(a) /\ carry = 0 THEN acc
  ELSE LET v == (IF i > Len(a) THEN 0 ELSE a[i]) + carry
       IN CarryFrom(a, i + 1, v \div RADIX, Append(acc, v % RADIX))
Carry(a) == Trim(CarryFrom(a, 1, 0, <<>>))      \* also works for negative digits of a non-negative number

N(n) == CarryFrom(<<>>, 1, n, <<>>)             \* 0 <= n < 2^31
Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

NAdd(a, b) == Carry([i \in 1..Longer(a, b) |-> Digit(a, i) + Digit(b, i)])
NSub(a, b) == Carry([i \in 1..Longer(a, b) |-> Digit(a, i) - Digit(b, i)])    \* a >= b

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))

RECURSIVE Convolve(_, _, _, _, _)
Convolve(a, b, k, i, last) == IF i > last THEN 0 ELSE a[i] * b[k + 1 - i] + Convolve(a, b, k, i + 1, last)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |->
                            Convolve(a, b, k, IF k > Len(b) THEN k + 1 - Len(b) ELSE 1, IF k < Len(a) THEN k ELSE Len(a))])

RECURSIVE NPow(_, _)
NPow(a, n) == IF n = 0 THEN N(1) ELSE IF n = 1 THEN a
              ELSE LET h == NPow(a, n \div 2) s == NMul(h, h) IN IF n % 2 = 0 THEN s ELSE NMul(s, a)

\* the quotient and remainder by a small divisor, 0 < d < 2 * 10^6
RECURSIVE DivSmallFrom(_, _, _, _, _)
DivSmallFrom(a, d, i, r, acc) ==
  IF i = 0 THEN <<Trim(acc), r>>
  ELSE LET v == r * RADIX + a[i] IN DivSmallFrom(a, d, i - 1, v % d, <<v \div d>> \o acc)
NDivSmall(a, d) == DivSmallFrom(a, d, Len(a), 0, <<>>)[1]

\* the quotient by any divisor: long division; each digit is estimated from the leading digits, never too low
RECURSIVE Lower(_, _, _)
Lower(r, b, q) == LET p == NMul(N(q), b) IN IF NCmp(p, r) <= 0 THEN <<q, NSub(r, p)>> ELSE Lower(r, b, q - 1)
QuotientDigit(r, b) ==
  LET n == Len(b) IN
  IF n = 1 THEN LET v == (Digit(r, 2) * RADIX + Digit(r, 1)) \div b[1] IN Lower(r, b, v)
  ELSE LET top == (Digit(r, n + 1) * RADIX + Digit(r, n)) * RADIX + Digit(r, n - 1)
           est == top \div (b[n] * RADIX + b[n - 1])
       IN Lower(r, b, IF est >= RADIX THEN RADIX - 1 ELSE est)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, r, acc) ==
  IF i = 0 THEN Trim(acc)
  ELSE LET v == Trim(<<a[i]>> \o r) IN
       IF NCmp(v, b) < 0 THEN DivFrom(a, b, i - 1, v, <<0>> \o acc)
       ELSE LET d == QuotientDigit(v, b) IN DivFrom(a, b, i - 1, d[2], <<d[1]>> \o acc)
NDiv(a, b) == DivFrom(a, b, Len(a), <<>>, <<>>)

-----------------------------------------------------------------------------
Mk(s, a) == IF a = <<>> THEN <<0, <<>>>> ELSE <<s, a>>
Z(n) == IF n = 0 THEN <<0, <<>>>> ELSE IF n > 0 THEN <<1, N(n)>> ELSE <<-1, N(-n)>>
\* the integer with decimal groups g (most significant first, base 1000), for constants beyond 2^31
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))
ZG(sign, g) == Mk(sign, Trim(Rev(g)))
Neg(a) == <<-a[1], a[2]>>
Add(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
             ELSE IF a[1] = b[1] THEN <<a[1], NAdd(a[2], b[2])>>
             ELSE LET c == NCmp(a[2], b[2]) IN
                  IF c = 0 THEN <<0, <<>>>> ELSE IF c > 0 THEN <<a[1], NSub(a[2], b[2])>> ELSE <<b[1], NSub(b[2], a[2])>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Mk(a[1] * b[1], NMul(a[2], b[2]))
Abs(a) == <<IF a[1] = 0 THEN 0 ELSE 1, a[2]>>
Cmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE a[1] * NCmp(a[2], b[2])
Le(a, b) == Cmp(a, b) <= 0
Lt(a, b) == Cmp(a, b) < 0
DivSmall(a, d) == Mk(a[1], NDivSmall(a[2], d))      \* truncates towards zero
Div(a, b) == Mk(a[1] * b[1], NDiv(a[2], b[2]))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN Z(0) ELSE Add(Head(s), Sum(Tail(s)))

-----------------------------------------------------------------------------
(* Fixed point: an integer counting units of 10^-12.                         *)

PLACES == 4         \* base-1000 digits behind the point
Shift(a, k) == IF a[1] = 0 THEN a ELSE <<a[1], [i \in 1..(Len(a[2]) + k) |-> IF i <= k THEN 0 ELSE a[2][i - k]]>>
Drop(a, k) == Mk(a[1], SubSeq(a[2], k + 1, Len(a[2])))
F(a) == Shift(a, PLACES)                    \* the integer a as fixed point
FQ(n, d) == DivSmall(F(Z(n)), d)            \* n / d
FMul(a, b) == Drop(Mul(a, b), PLACES)
FDiv(a, b) == Div(Shift(a, PLACES), b)

\* e^x by its series at x / 2^8, squared eight times
RECURSIVE ExpSeries(_, _, _)
ExpSeries(x, term, n) == IF term[1] = 0 \/ n > 40 THEN Z(0)
                         ELSE Add(term, ExpSeries(x, DivSmall(FMul(term, x), n), n + 1))
RECURSIVE SquareTimes(_, _)
SquareTimes(y, n) == IF n = 0 THEN y ELSE SquareTimes(FMul(y, y), n - 1)
Exp(x) == SquareTimes(ExpSeries(DivSmall(x, 256), F(Z(1)), 1), 8)

\* ln(n / d) for small positive integers, after scaling into (2/3, 4/3]: 2 artanh((n - d) / (n + d))
LN2 == ZG(1, <<693, 147, 180, 560>>)
LN10 == ZG(1, <<2, 302, 585, 92, 994>>)
RECURSIVE ArtanhSeries(_, _, _)
ArtanhSeries(z2, power, n) == IF power[1] = 0 \/ n > 61 THEN Z(0)
                              ELSE Add(DivSmall(power, n), ArtanhSeries(z2, FMul(power, z2), n + 2))
RECURSIVE LnQ(_, _)
LnQ(n, d) == IF 3 * n <= 2 * d THEN Sub(LnQ(2 * n, d), LN2)
             ELSE IF 3 * n > 4 * d THEN Add(LnQ(n, 2 * d), LN2)
             ELSE LET z == FQ(n - d, n + d) IN Mul(Z(2), ArtanhSeries(FMul(z, z), z, 1))
=============================================================================
