------------------------------ MODULE MCScalar -----------------------------
(* Every set of keys in a window of a small type: dense, sparse and hashed   *)
(* tables answer as LastWins does, wherever the window lies.                 *)
EXTENDS Repr, Json
CONSTANTS W, Lo, Hi         \* keys are drawn from 0..W-1, probes from Lo..Hi
LoVal == -3
VARIABLE ks
Entries(order) == [i \in DOMAIN order |-> <<order[i], 100 + order[i]>>]
Up == Entries(SetToSortSeq(ks, <))
Down == Entries(SetToSortSeq(ks, >))
Init == ks \in SUBSET (0..(W - 1))
Next == UNCHANGED ks
Spec == Init /\ [][Next]_ks
Refines ==
    \A k \in Lo..Hi :
        LET want == Lookup(LastWins(Up), k)
        IN  /\ (ks = {} \/ ScalarKind(ks, 0, 10) = "dense") => DenseFind(Up, k) = want
            /\ SparseFind(Up, k) = want
            /\ SparseFind(Down, k) = want          \* entry order is free
Kinds == ScalarKind(ks, 3, 2) \in {"dense", "sparse", "general"}
Dump == PrintT(ToJson([ks |-> SetToSortSeq(ks, <), kind |-> ScalarKind(ks, 3, 2)]))
=============================================================================
