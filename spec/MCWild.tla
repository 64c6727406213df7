------------------------------- MODULE MCWild -------------------------------
(* Everything reachable in Wild with two collections of at most MaxEn entries *)
(* and NV values: whatever the keys answer, the properties hold.             *)
EXTENDS Wild
CONSTANTS MaxEn, NV, Kind
VARIABLE made          \* values (or keys, for sets) created so far
mvars == <<wvars, made>>
HS == {1, 2}
Fresh(n) == [j \in 1..n |-> IF Kind = "set" THEN <<made + j, 0>> ELSE <<made + j, made + j>>]
Sub(en, S) == [i \in 1..Cardinality(S) |-> en[SetToSortSeq(S, <)[i]]]
Ids(h) == {Ent(h)[i][IF Kind = "map" THEN 2 ELSE 1] : i \in DOMAIN Ent(h)}

Build == \E h \in HS, n \in 0..MaxEn : made + n <= NV /\ made' = made + n /\
            \/ \E S \in SUBSET (1..n) : WBuild(h, Kind, Fresh(n), Sub(Fresh(n), S), TRUE, FALSE)
            \/ \E p \in BOOLEAN : WBuild(h, Kind, Fresh(n), <<>>, FALSE, p)
Clone == \E h, g \in HS, p \in BOOLEAN : WClone(h, g, p) /\ UNCHANGED made
Drop  == \E h \in HS, p \in BOOLEAN : WDrop(h, p) /\ UNCHANGED made
Look  == \E h \in Handles, p \in BOOLEAN : UNCHANGED made /\ \E r \in Ids(h) \cup {NONE} : WGet(h, r, p)
Put   == \E h \in Handles, p \in BOOLEAN : made < NV /\ made' = made + 1 /\
            \E r \in Ids(h) \cup {NONE} : WPut(h, made + 1, r, p)
Dis   == \E h \in Handles, n \in 0..3, p \in BOOLEAN : made + n <= NV /\ made' = made + n /\
            IF p THEN WDis(h, [j \in 1..n |-> made + j], <<>>, TRUE)
            ELSE \E r \in [1..n -> Ids(h) \cup {NONE}] : WDis(h, [j \in 1..n |-> made + j], r, FALSE)
Bump  == \E h \in Handles : Kind = "map" /\ LET n == Len(Ent(h)) IN
            /\ made + n <= NV /\ made' = made + n
            /\ \E o \in SetToSeqs(Ids(h)) : WBump(h, [j \in 1..n |-> <<o[j], made + j>>])
Take  == \E h \in Handles, n \in 0..MaxEn : \E S \in SUBSET (DOMAIN Ent(h)) :
            \E p \in BOOLEAN : WTake(h, n, "kv", Sub(Ent(h), S), p) /\ UNCHANGED made
Op    == \E h, g \in Handles, op \in {"union", "diff"}, S \in SUBSET (1..(2 * MaxEn)) :
            /\ Kind = "set" /\ S \subseteq 1..Len(Ent(h) \o Ent(g))
            /\ WOp(h, g, op, View("k", Sub(Ent(h) \o Ent(g), S)), TRUE) /\ UNCHANGED made
Next == Build \/ Clone \/ Drop \/ Look \/ Put \/ Dis \/ Bump \/ Take \/ Op
Spec == WInit /\ made = 0 /\ [][Next]_mvars
(* a collection that shares no value with another holds what was created      *)
Sound == \A h \in Handles : \A i \in DOMAIN Ent(h) : Ent(h)[i][1] \in 1..made /\ Ent(h)[i][2] \in 0..made
=============================================================================
