SPECIFICATION TraceSpec
INVARIANTS NoSharing
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
