------------------------------- MODULE Derived -------------------------------
(* Which measurements the derived values of an archive record come from, and *)
(* the 10-minute wind maximum of a list of records.                          *)
EXTENDS Wind

-----------------------------------------------------------------------------
(* Derived values.  v is the record: every measurement <<>> or <<n>>.  c     *)
(* holds the value of each formula for each combination of measurements.     *)

Some(x) == x # <<>>
Positive(x) == x # <<>> /\ x[1] # 0         \* zero humidity, pressure, wind or radiation means nothing was measured
Pick(s, use) == SelectSeq([i \in DOMAIN s |-> IF use[i] THEN s[i] ELSE <<>>], Some)
First(a) == IF a = <<>> THEN <<>> ELSE a[1]
Lowest(a) == IF a = <<>> THEN <<>> ELSE CHOOSE x \in {a[i] : i \in DOMAIN a} : \A i \in DOMAIN a : x[1] <= a[i][1]
Highest(a) == IF a = <<>> THEN <<>> ELSE CHOOSE x \in {a[i] : i \in DOMAIN a} : \A i \in DOMAIN a : x[1] >= a[i][1]

\* temperatures in the order a formula prefers them
CLH(v) == <<Some(v.t), Some(v.tl), Some(v.th)>>
CHL(v) == <<Some(v.t), Some(v.th), Some(v.tl)>>
Twice(s) == <<s[1], s[1], s[2], s[2], s[3], s[3]>>

Expected(v, c) ==
  LET humid == Positive(v.ho)
      only(b, s) == IF b THEN s ELSE <<>>
      all(cond, s) == [i \in DOMAIN s |-> cond /\ s[i]]
      dew == Pick(c.dew, all(humid, CLH(v)))
      heat == Pick(c.heat, all(humid, CLH(v)))
      chill == Pick(c.chill, all(Positive(v.ws), CHL(v)) \o all(Positive(v.wsh), CHL(v)))
      thw == Pick(c.thw, all(humid, Twice(CHL(v))))
      thsw == Pick(c.thsw, all(humid /\ Positive(v.sr), Twice(CHL(v))) \o all(humid /\ Positive(v.srh), Twice(CHL(v))))
      wet == humid /\ Positive(v.p)
      inside == Positive(v.hi) /\ Some(v.ti)
  IN [temperature_wet_bulb |-> only(wet /\ Some(v.t), c.wet[1]),
      temperature_wet_bulb_low |-> only(wet /\ Some(v.tl), c.wet[2]),
      temperature_wet_bulb_high |-> only(wet /\ Some(v.th), c.wet[3]),
      dew_point_outside |-> First(dew), dew_point_outside_low |-> Lowest(dew), dew_point_outside_high |-> Highest(dew),
      heat_index_outside |-> First(heat), heat_index_outside_low |-> Lowest(heat), heat_index_outside_high |-> Highest(heat),
      dew_point_inside |-> only(inside, c.inside[1]), heat_index_inside |-> only(inside, c.inside[2]),
      wind_chill |-> First(chill), wind_chill_low |-> Lowest(chill), wind_chill_high |-> Highest(chill),
      thw_index |-> First(thw), thw_index_low |-> Lowest(thw), thw_index_high |-> Highest(thw),
      thsw_index |-> First(thsw), thsw_index_low |-> Lowest(thsw), thsw_index_high |-> Highest(thsw)]
=============================================================================
