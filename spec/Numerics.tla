------------------------------ MODULE Numerics ------------------------------
(* Unit conversions and derived weather values, decided exactly (or, where   *)
(* logarithms are involved, to 10^-15) with the integers of Big.             *)
EXTENDS Integers, Sequences, Big

\* r (an integer) is n / d rounded to nearest, d > 0, n and d Big integers; either neighbour at a tie
Nearest(r, n, d) == Le(Mul(Z(2), Abs(Sub(Mul(Z(r), d), n))), d)

-----------------------------------------------------------------------------
(* Conversions: arguments and results in thousandths unless said otherwise.  *)

FtoC(f, r) == Nearest(r, Z(5 * (f - 32000)), Z(9))
CtoF(c, r) == Nearest(r, Z(9 * c + 160000), Z(5))
FtoK(f, r) == Nearest(r, Z(5 * (f + 459670)), Z(9))
KtoF(k, r) == Nearest(r, Z(9 * k - 2298350), Z(5))
MercuryConstant == ZG(1, <<295, 299, 830, 714>>)            \* 0.295299830714 inHg per kPa, times 10^12
HgToKpa(p, r) == Nearest(r, Mul(Z(p), ZG(1, <<100, 0, 0, 0>>)), MercuryConstant)       \* hundredths of a kPa
HgToMb(p, r) == Nearest(r, Mul(Z(p), ZG(1, <<1, 0, 0, 0, 0>>)), MercuryConstant)       \* hundredths of a mb
MphToMs(w, r) == Nearest(r, Mul(Z(w), Z(44704)), Z(1000))                              \* 10^-5 m/s

-----------------------------------------------------------------------------
(* Heat index of temperature t and humidity h (both in tenths): <<>> or      *)
(* tenths of a degree rounded up.                                            *)

\* simple = (T + 61 + (T - 68) 1.2 + 0.094 H) / 2; average = (simple + T) / 2 = (4.2 T - 20.6 + 0.094 H) / 4,
\* in units of 1/40000 degree
HeatSimple(t, h) == 4200 * t - 206000 + 94 * h
CeilDiv(n, d) == -((-n) \div d)

\* the regression in units of 10^-12 degree (coefficients have 8 places, t and h are tenths of degree up to 4)
HeatRegression(t, h) ==
  LET tt == t * t hh == h * h IN
  Sum(<<ZG(-1, <<42, 379, 0, 0, 0>>),                                          \* -42.379
        Mul(Z(204901523), Mul(Z(t), Z(1000))),                               \*  2.04901523 T
        Mul(Z(1014333127), Mul(Z(h), Z(1000))),                              \* 10.14333127 H
        Mul(Z(-22475541), Mul(Z(t * h), Z(100))),                            \* -0.22475541 T H
        Mul(Z(-683783), Mul(Z(tt), Z(100))),                                 \* -0.00683783 T T
        Mul(Z(-5481717), Mul(Z(hh), Z(100))),                                \* -0.05481717 H H
        Mul(Z(122874), Mul(Mul(Z(tt), Z(h)), Z(10))),                        \*  0.00122874 T T H
        Mul(Z(85282), Mul(Mul(Z(t), Z(hh)), Z(10))),                         \*  0.00085282 T H H
        Mul(Z(-199), Mul(Z(tt), Z(hh)))>>)                                   \* -0.00000199 T T H H

E12(tenths) == Mul(Z(tenths), ZG(1, <<100, 0, 0, 0>>))      \* tenths of a degree in units of 10^-12 degree

\* r is x rounded up to a tenth: r - 0.1 < x <= r
IsCeil(r, x) == Le(x, E12(r)) /\ Lt(E12(r - 1), x)

\* p - s <= r and p - s > r - 0.1 where s = ((13 - H) / 4) sqrt((17 - |T - 95|) / 17), compared by squares
AbsInt(n) == IF n < 0 THEN -n ELSE n
DrySquareTimes(h, t) ==     \* 17 * s^2 in units of 10^-24: (130 - h)^2 / 1600 * (170 - |t - 950|) / 10
  Mul(Z((130 - h) * (130 - h)), Mul(Z(170 - AbsInt(t - 950)), DivSmall(ZG(1, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>), 16000)))
AtLeast(d, h, t) == d[1] <= 0 \/ Le(Mul(Z(17), Mul(d, d)), DrySquareTimes(h, t))        \* s >= d
IsDryCeil(r, p, h, t) == AtLeast(Sub(p, E12(r)), h, t) /\ ~AtLeast(Add(Sub(p, E12(r)), E12(1)), h, t)

HeatIndexIs(t, h, result) ==
  IF t < 700 THEN result = <<>>
  ELSE /\ Len(result) = 1
       /\ LET r == result[1] s == HeatSimple(t, h) IN
          IF s < 800 * 4000 THEN r = CeilDiv(s, 4000)
          ELSE IF t >= 800 /\ t <= 1120 /\ h < 130 THEN IsDryCeil(r, HeatRegression(t, h), h, t)
          ELSE IF t >= 800 /\ t <= 870 /\ h > 850
               THEN IsCeil(r, Add(HeatRegression(t, h), Mul(Z((h - 850) * (870 - t)), Z(200000000))))
          ELSE IsCeil(r, HeatRegression(t, h))

\* w in tenths of a mile per hour
ThwReduction(w) == CeilDiv(1072 * w, 1000)

-----------------------------------------------------------------------------
(* Wind chill of t and w (tenths): 35.74 + 0.6215 T - (35.75 - 0.4275 T) V   *)
(* with V = W^0.16, rounded down to a tenth.  chill >= c  <=>  V <= x  <=>   *)
(* W^4 <= x^25 where x = (35.74 + 0.6215 T - c) / (35.75 - 0.4275 T).        *)

ChillNum(t, c) == 714800 + 1243 * t - 2000 * c              \* units of 1/20000 degree
ChillDen(t) == 715000 - 855 * t
ChillNotBelow(t, w, c) ==
  LET n == ChillNum(t, c) d == ChillDen(t) IN
  n >= 0 /\ NCmp(NMul(NPow(N(w), 4), NPow(N(d), 25)), NMul(NPow(N(n), 25), N(10000))) <= 0

WindChillIs(t, w, result) ==
  IF t > 400 THEN result = <<>>
  ELSE /\ Len(result) = 1
       /\ LET c == result[1] IN
          IF w = 0 THEN c = t
          ELSE c <= t /\ ChillNotBelow(t, w, c) /\ (c < t => ~ChillNotBelow(t, w, c + 1))

-----------------------------------------------------------------------------
(* Formulas with logarithms: results agree with the formula to within        *)
(* rounding.                                                                 *)

\* The library works with temperatures in thousandths of a degree Celsius, pressures in hundredths of a millibar
\* and speeds in 10^-5 metres per second, rounds the result to thousandths and that to tenths.
MILLIONTHS(n) == Mul(Z(n), Z(1000000))                      \* n * 10^-6 as fixed point
Slack == MILLIONTHS(50510)                                  \* 0.05 + 0.0005 for the two roundings, and the fixed point's own
RoundDiv(n, d) == (2 * n + d) \div (2 * d)
Celsius(t) == FQ(RoundDiv(5000 * (t - 320), 90), 1000)      \* fixed point, of tenths of a degree Fahrenheit
Fahrenheit(c) == Add(DivSmall(Mul(Z(9), c), 5), F(Z(32)))
Near(r, x) == Le(Abs(Sub(DivSmall(F(Z(r)), 10), x)), Slack) \* r tenths against fixed point x

DewPoint(t, h) ==           \* h in tenths of a percent, > 0
  LET c == Celsius(t)
      y == Add(LnQ(h, 1000), FMul(Sub(FQ(1767, 100), DivSmall(Mul(Z(10), c), 2345)), FDiv(c, Add(FQ(2435, 10), c))))
  IN Fahrenheit(FDiv(FMul(FQ(2435, 10), y), Sub(FQ(1767, 100), y)))

RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 1 THEN x ELSE FMul(x, FPow(x, n - 1))

WetBulb(t, h, p) ==         \* p in thousandths of an inch of mercury
  LET c == Celsius(t)
      \* rounded to hundredths
      mb == DivSmall(F(Div(Add(Mul(Z(2 * p), ZG(1, <<1, 0, 0, 0, 0>>)), MercuryConstant), Mul(Z(2), MercuryConstant))), 100)
      q == FQ(1000 - h, 1000)
      d == Sub(Sub(Sub(c, FMul(Add(FQ(1455, 100), FMul(FQ(114, 1000), c)), q)),
                   FPow(FMul(Add(FQ(25, 10), FMul(FQ(7, 1000), c)), q), 3)),
               FMul(Add(FQ(159, 10), FMul(FQ(117, 1000), c)), IF h = 1000 THEN Z(0) ELSE FPow(q, 14)))
      dc == Add(FQ(2377, 10), d)
      e == FMul(FQ(611, 100), Exp(FMul(LN10, FDiv(FMul(FQ(75, 10), d), dc))))
      a == FMul(FQ(66, 100000), mb)
      b == FDiv(Mul(Z(4098), e), FMul(dc, dc))
  IN Fahrenheit(FDiv(Add(FMul(a, c), FMul(b, d)), Add(a, b)))

Thsw(t, h, q, w) ==         \* q in watts per square metre, w in tenths of a mile per hour
  LET c == Celsius(t)
      ms == FQ(RoundDiv(w * 44704, 10), 100000)
      e == FMul(DivSmall(Mul(Z(h), FQ(6105, 1000)), 1000), Exp(FDiv(FMul(FQ(1727, 100), c), Add(FQ(2377, 10), c))))
  IN Fahrenheit(Sub(Add(Sub(Add(c, FMul(FQ(348, 1000), e)), FMul(FQ(7, 10), ms)),
                        FDiv(FQ(7 * q, 140), Add(F(Z(10)), ms))),
                    FQ(425, 100)))

-----------------------------------------------------------------------------
(* Degree days, averages and results in units of 10^-5 degree.               *)
Heating(a) == IF a = <<>> \/ a[1] >= 6500000 THEN <<>> ELSE <<6500000 - a[1]>>
Cooling(a) == IF a = <<>> \/ a[1] <= 6500000 THEN <<>> ELSE <<a[1] - 6500000>>

-----------------------------------------------------------------------------
(* Rain collectors: v is a number of units of 10^-24 (Big), n clicks.        *)
\* exact in the collector's own unit; the other unit at 0.393701 inches per centimetre
RainUnit(name) == CASE name = "inches_0_1" -> <<"in", 100>> [] name = "inches_0_01" -> <<"in", 10>>
                    [] name = "millimeters_0_2" -> <<"cm", 20>> [] name = "millimeters_0_1" -> <<"cm", 10>>
                    [] name = "millimeters_1_0" -> <<"cm", 100>>              \* in thousandths
E24(thousandths) == Mul(Z(thousandths), ZG(1, <<1, 0, 0, 0, 0, 0, 0, 0>>))
RainIs(name, n, unit, v) ==
  LET u == RainUnit(name) amount == E24(n * u[2]) IN
  IF u[1] = unit THEN v = amount
  ELSE IF unit = "in" THEN v = DivSmall(Mul(amount, Z(393701)), 1000000)
  ELSE \* centimetres of an inch collector: to 19 decimals
       Le(Abs(Sub(DivSmall(Mul(v, Z(393701)), 1000000), amount)), Z(100000))
=============================================================================
