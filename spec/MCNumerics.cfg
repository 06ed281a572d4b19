INIT ConvInit
NEXT ConvNext
INVARIANTS ThereAndBack OrderKept NearestUnique ChillSlope DegreeDaysExclusive
CHECK_DEADLOCK FALSE
