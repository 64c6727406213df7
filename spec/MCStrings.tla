------------------------------ MODULE MCStrings ----------------------------
(* Every small set of short strings over two letters: whatever part of the   *)
(* keys is hashed, lookups answer as LastWins does, also for probes that are  *)
(* shorter than the hashed range.                                           *)
EXTENDS Repr, Json
CONSTANTS MaxLen, MaxKeys
VARIABLE S
Strings == UNION {[1..n -> {1, 2}] : n \in 0..MaxLen}
Init == S \in UNION {kSubset(n, Strings) : n \in 0..MaxKeys}
Next == UNCHANGED S
Spec == Init /\ [][Next]_S
En == LET q == SetToSeq(S) IN [i \in DOMAIN q |-> <<q[i], i>>]
How == StringPlan(S)
Plans == {<<"length">>, <<"all">>, How} \cup {<<d, a, b>> : d \in {"left", "right"}, a \in 0..1, b \in 1..2}
Refines == \A h \in Plans : (Len(h) = 1 \/ h[2] < h[3]) => \A s \in Strings : StringFind(En, h, s) = Lookup(LastWins(En), s)
(* the analysis settles on something that is defined on every key and tells   *)
(* all of them apart                                                         *)
Sound == /\ Unique(How, S)
         /\ How[1] \in {"left", "right"} => How[3] <= Min(Lens(S)) /\ How[2] < How[3]
Dump == PrintT(ToJson([ks |-> [i \in 1..Len(En) |-> En[i][1]], how |-> How]))
=============================================================================
