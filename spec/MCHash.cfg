CONSTANTS NP = 4 NA = 2 C = 5
SPECIFICATION Spec
INVARIANTS TablesRefine NoCollRefines SizeIsEnough Dump
CHECK_DEADLOCK FALSE
