CONSTANTS Keys = {1, 2} Vals = {5, 6} HandleIds = {1, 2} IterIds = {1, 2} MaxEn = 2 Walks = FALSE Kind = "set"
SPECIFICATION MCSpec
VIEW MCView
INVARIANTS TypeOK Conservation IterPartition QueriesAgree BorrowSafe HintsBound OneOrder Algebra
PROPERTIES FrozenKeys OrderStays Isolation SetsImmutable
CHECK_DEADLOCK FALSE
