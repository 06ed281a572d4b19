INIT DegreeInit
NEXT Stutter
INVARIANTS DegreeSectors DegreeOneEach DegreeCodes
CHECK_DEADLOCK FALSE
