------------------------------- MODULE MCHash ------------------------------
(* Every way in which the hash codes of a few present and absent keys can    *)
(* coincide, and every table size: the tables answer as LastWins does.       *)
EXTENDS Repr, Json
CONSTANTS NP, NA, C        \* present keys 1..np (np <= NP), NA absent ones; codes 0..C-1
VARIABLE inst
Sorted(f, a, b) == \A i \in a..(b - 1) : f[i] <= f[i + 1]
(* renaming keys changes nothing: codes in ascending order                    *)
Instances == UNION {{[np |-> np, code |-> f] : f \in {g \in [1..(np + NA) -> 0..(C - 1)] : Sorted(g, 1, np) /\ Sorted(g, np + 1, np + NA)}} : np \in 0..NP}
En == [i \in 1..inst.np |-> <<i, 100 + i>>]
All == 1..(inst.np + NA)
Init == inst \in Instances
Next == UNCHANGED inst
Spec == Init /\ [][Next]_inst
Sizes == {m \in {1, 2, 4, 8, 16, 32} : m >= Pow2(inst.np)}
TablesRefine == \A m \in Sizes :
    LET t == HashTable(En, inst.code, m)
    IN  /\ \A k \in All : HashFind(t, inst.code, m, k) = Lookup(LastWins(En), k)
        /\ {t.entries[i] : i \in DOMAIN t.entries} = {En[i] : i \in DOMAIN En}
        /\ Fits(t, inst.np)
NoCollRefines == \A m \in Sizes :
    NoColl(En, inst.code, m) => \A k \in All : NcFind(En, inst.code, m, k) = Lookup(LastWins(En), k)
SizeIsEnough ==
    LET m == TableSize(1..inst.np, inst.code)
    IN  m >= Pow2(inst.np) /\ Len(HashTable(En, inst.code, m).entries) = inst.np
Dump == PrintT(ToJson([np |-> inst.np, code |-> [i \in 1..(inst.np + NA) |-> inst.code[i]]]))
=============================================================================
