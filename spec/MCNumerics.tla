----------------------------- MODULE MCNumerics -----------------------------
(* What the definitions of Numerics themselves guarantee.                    *)
EXTENDS Numerics, TLC

VARIABLE x      \* a temperature in thousandths

ConvInit == x \in {1000 * k : k \in -150..300}
ConvNext == x % 1000 = 0 /\ x' \in (x + 1)..(x + 999)
CF(f) == RoundDiv(5 * (f - 32000), 9)
FC(c) == RoundDiv(9 * c + 160000, 5)
KF(f) == RoundDiv(5 * (f + 459670), 9)
FK(k) == RoundDiv(9 * k - 2298350, 5)
ThereAndBack == /\ FC(CF(x)) - x \in -2..2 /\ CF(FC(x)) - x \in -2..2
                /\ FK(KF(x)) - x \in -2..2 /\ KF(FK(x)) - x \in -2..2
OrderKept == CF(x) <= CF(x + 1) /\ FC(x) < FC(x + 1) /\ KF(x) <= KF(x + 1) /\ FK(x) < FK(x + 1)
\* Nearest accepts the rounded value and nothing a unit away (no ties among thousandths)
NearestUnique == x % 10 = 0 => /\ FtoC(x, CF(x)) /\ ~FtoC(x, CF(x) + 1) /\ ~FtoC(x, CF(x) - 1)
                               /\ CtoF(x, FC(x)) /\ ~CtoF(x, FC(x) + 1) /\ ~CtoF(x, FC(x) - 1)
\* the slope of wind chill in V is negative, so that it never rises with the wind
ChillSlope == x \div 100 <= 400 => ChillDen(x \div 100) > 0
DegreeDaysExclusive == LET a == <<100 * x>> IN Heating(a) = <<>> \/ Cooling(a) = <<>>
=============================================================================
