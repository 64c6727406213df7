CONSTANTS MaxEn = 3 NV = 6 Kind = "map"
SPECIFICATION Spec
INVARIANTS NoSharing Sound
PROPERTIES KeysStay
CHECK_DEADLOCK FALSE
