SPECIFICATION TraceSpec
INVARIANTS Conservation IterPartition
PROPERTIES FrozenKeys SetsImmutable
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
