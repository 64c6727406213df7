CONSTANTS MaxEn = 3 NV = 6 Kind = "set"
SPECIFICATION Spec
INVARIANTS NoSharing Sound
PROPERTIES KeysStay
CHECK_DEADLOCK FALSE
