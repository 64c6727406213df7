CONSTANTS E = 4
SPECIFICATION Spec
INVARIANTS NoRepeats Complete Bounds
PROPERTY Terminates
CHECK_DEADLOCK FALSE
