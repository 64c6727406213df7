CONSTANTS NK = 4 NH = 3 NI = 2 MaxEn = 4 Depth = 30 Kind = "map"
SPECIFICATION GenSpec
INVARIANTS Dump Conservation
CHECK_DEADLOCK FALSE
