--------------------------- MODULE TraceNumerics ---------------------------
(* Recorded calls of the conversion and derivation functions against        *)
(* Numerics.  A result is [] for None or [n] in the unit of the formula.    *)
EXTENDS TraceLib, Numerics

Is(r, P(_)) == Len(r) = 1 /\ r[1] # BAD /\ P(r[1])

Conversion(c) ==
  CASE c.unit = "f_to_c" -> Is(c.r, LAMBDA r : FtoC(c.v, r))
    [] c.unit = "c_to_f" -> Is(c.r, LAMBDA r : CtoF(c.v, r))
    [] c.unit = "f_to_k" -> Is(c.r, LAMBDA r : FtoK(c.v, r))
    [] c.unit = "k_to_f" -> Is(c.r, LAMBDA r : KtoF(c.v, r))
    [] c.unit = "hg_to_kpa" -> Is(c.r, LAMBDA r : HgToKpa(c.v, r))
    [] c.unit = "hg_to_mb" -> Is(c.r, LAMBDA r : HgToMb(c.v, r))
    [] c.unit = "mph_to_ms" -> Is(c.r, LAMBDA r : MphToMs(c.v, r))
    \* there and back again: v is the original, in thousandths
    [] c.unit \in {"f_c_f", "f_k_f", "c_f_c", "k_f_k"} -> Is(c.r, LAMBDA r : AbsInt(r - c.v) <= 2)

Bad(c) ==
  CASE c.op = "convert" -> Clause(Conversion(c), c.unit)
    [] c.op = "heat" -> Clause(c.r # <<BAD>> /\ HeatIndexIs(c.t, c.h, c.r), "heat_index")
    [] c.op = "thw" -> Clause(IF c.t < 700 THEN c.r = <<>>
                              ELSE Is(c.r, LAMBDA r : r > -100000 /\ HeatIndexIs(c.t, c.h, <<r + ThwReduction(c.w)>>)), "thw")
    [] c.op = "chill" -> Clause(c.r # <<BAD>> /\ WindChillIs(c.t, c.w, c.r), "wind_chill")
    [] c.op = "chills" -> Clause(\A i \in 2..Len(c.r) : c.r[i] <= c.r[i - 1], "chill_monotone")
                          \cup Clause(\A i \in 1..Len(c.r) : c.r[i] # BAD /\ c.r[i] <= c.t, "chill_above_temperature")
    [] c.op = "dew" -> Clause(Is(c.r, LAMBDA r : Near(r, DewPoint(c.t, c.h))), "dew_point")
                       \cup Clause(Is(c.r, LAMBDA r : r <= c.t + 1), "dew_point_above_temperature")
    [] c.op = "wet" -> Clause(Is(c.r, LAMBDA r : Near(r, WetBulb(c.t, c.h, c.p))), "wet_bulb")
                       \cup Clause(Is(c.r, LAMBDA r : r <= c.t + 1), "wet_bulb_above_temperature")
    [] c.op = "thsw" -> Clause(Is(c.r, LAMBDA r : Near(r, Thsw(c.t, c.h, c.q, c.w))), "thsw")
    [] c.op = "days" -> Clause(c.heating = Heating(c.a), "heating") \cup Clause(c.cooling = Cooling(c.a), "cooling")
    [] c.op = "rain" -> Clause(c.ok = 1 /\ RainIs(c.name, c.clicks, c.unit, <<c.s, c.m>>), c.unit)
    [] c.op = "collectors" -> Clause(c.serial = <<<<"inches_0_01", 0>>, <<"millimeters_0_1", 32>>, <<"millimeters_0_2", 16>>>>, "serial_codes")
                              \cup Clause(c.database = <<<<"inches_0_01", 4096>>, <<"inches_0_1", 0>>, <<"millimeters_0_1", 24576>>,
                                                         <<"millimeters_0_2", 8192>>, <<"millimeters_1_0", 12288>>>>, "database_codes")

VARIABLES i, done
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Bad(Cases[i]))
=============================================================================
