CONSTANTS N = 40 L = 5 K = 4
SPECIFICATION Spec
INVARIANTS DedupRefines SearchRefines
CHECK_DEADLOCK FALSE
