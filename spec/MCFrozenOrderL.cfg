CONSTANTS Keys = {1, 2} Vals = {5, 6} HandleIds = {1} IterIds = {1, 2} MaxEn = 2 Walks = TRUE Kind = "map"
SPECIFICATION MCSpec
VIEW MCView
INVARIANTS TypeOK Conservation IterPartition QueriesAgree BorrowSafe HintsBound OneOrder
PROPERTIES FrozenKeys OrderStays Isolation SetsImmutable
CHECK_DEADLOCK FALSE
