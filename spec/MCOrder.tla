------------------------------- MODULE MCOrder -----------------------------
(* Sorting, de-duplicating and laying out entries for binary search: every   *)
(* size up to N, every present key and every gap; and every short sequence    *)
(* of entries for the de-duplication.                                        *)
EXTENDS Repr
CONSTANTS N, L, K
VARIABLES n, en
Seqs == UNION {[1..i -> 1..K] : i \in 0..L}
Init == \/ n \in 0..N /\ en = [i \in 1..n |-> <<2 * i, 100 + i>>]
        \/ n = -1 /\ \E q \in Seqs : en = [i \in DOMAIN q |-> <<q[i], i>>]
Next == UNCHANGED <<n, en>>
Spec == Init /\ [][Next]_<<n, en>>
DedupRefines ==
    n = -1 =>
    /\ \A d \in {DedupEq(en), DedupHash(en), DedupSorted(en)} :
          /\ Cardinality(KeysOf(d)) = Len(d)
          /\ LastWins(d) = LastWins(en)
    /\ DedupEq(en) = DedupHash(en)
SearchRefines ==
    LET s == IF n = -1 THEN DedupSorted(en) ELSE en
        e == Eytzinger(s)
    IN  \A k \in 0..(2 * Len(s) + K + 1) : EytFind(e, 1, k) = Lookup(LastWins(en), k)
=============================================================================
