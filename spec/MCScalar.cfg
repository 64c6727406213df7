CONSTANTS W = 7 Lo <- LoVal Hi = 10
SPECIFICATION Spec
INVARIANTS Refines Kinds Dump
CHECK_DEADLOCK FALSE
