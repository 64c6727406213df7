CONSTANTS MaxLen = 3 MaxKeys = 3
SPECIFICATION Spec
INVARIANTS Refines Sound Dump
CHECK_DEADLOCK FALSE
