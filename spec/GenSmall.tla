------------------------------ MODULE GenSmall ------------------------------
(***************************************************************************)
(* Exhaustive small input spaces, exported as JSON for replay on the code:  *)
(* every sequence of keys, every request array, every pair of sets.         *)
(***************************************************************************)
EXTENDS FrozenOps, Json
CONSTANTS What

Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Out(S) == PrintT(ToJson(SetToSeq(S)))

(* the vocabulary itself, checked over the exported space                    *)
SeqLaws ==
    \A ks \in Seqs(1..3, 5) :
       LET en == [j \in DOMAIN ks |-> <<ks[j], j>>]
           c  == LastWins(en)
       IN  /\ DOMAIN c = Rng(ks)
           /\ \A k \in DOMAIN c : ks[c[k]] = k /\ \A j \in (c[k] + 1)..Len(ks) : ks[j] # k
SetLaws ==
    \A A, B \in SUBSET (0..3) :
       /\ Cardinality(SetOp("union", A, B)) = Cardinality(A) + Cardinality(B \ A)
       /\ SetOp("sym", A, B) = SetOp("diff", A, B) \cup SetOp("diff", B, A)
       /\ SetOp("inter", A, B) = SetOp("diff", A, SetOp("diff", A, B))

ASSUME CASE What = "seqs"  -> SeqLaws /\ Out(Seqs(1..3, 5))
         [] What = "reqs"  -> Out(Seqs(0..4, 4))
         [] What = "pairs" -> SetLaws /\ Out({<<SetToSeq(A), SetToSeq(B)>> : A, B \in SUBSET (0..3)})
=============================================================================
