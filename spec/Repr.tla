------------------------------- MODULE Repr --------------------------------
(***************************************************************************)
(* How the collections are laid out, one level below FrozenOps: the         *)
(* representations and algorithms that have to refine "LastWins(entries),   *)
(* looked up by key".  The MC* modules show on bounded instances that each   *)
(* of them does, and export the instances; the harness then builds real     *)
(* collections from the very same instances.                                *)
(***************************************************************************)
EXTENDS FrozenOps

(* ----------------------------- de-duplication --------------------------- *)
RECURSIVE Keep(_, _, _)
Keep(en, drop, i) == IF i > Len(en) THEN <<>>
                     ELSE (IF i \in drop THEN <<>> ELSE <<en[i]>>) \o Keep(en, drop, i + 1)
(* by comparing every pair: an entry goes if a later one has the same key     *)
DedupEq(en) == Keep(en, {i \in DOMAIN en : \E j \in DOMAIN en : j > i /\ en[j][1] = en[i][1]}, 1)
(* in order, remembering the last index at which each key was seen            *)
RECURSIVE HashScan(_, _, _, _)
HashScan(en, i, keep, drop) ==
    IF i > Len(en) THEN drop
    ELSE LET k == en[i][1]
         IN  HashScan(en, i + 1, [x \in DOMAIN keep \cup {k} |-> IF x = k THEN i ELSE keep[x]],
                      IF k \in DOMAIN keep THEN drop \cup {keep[k]} ELSE drop)
DedupHash(en) == Keep(en, HashScan(en, 1, Empty, {}), 1)
(* after a stable sort, all but the last of each run                          *)
RECURSIVE Insert(_, _)
Insert(s, e) == IF s = <<>> \/ s[Len(s)][1] <= e[1] THEN Append(s, e)
                ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), e), s[Len(s)])
RECURSIVE StableSort(_)
StableSort(en) == IF en = <<>> THEN <<>> ELSE Insert(StableSort(SubSeq(en, 1, Len(en) - 1)), en[Len(en)])
DedupSorted(en) == LET s == StableSort(en) IN Keep(s, {i \in 1..(Len(s) - 1) : s[i][1] = s[i + 1][1]}, 1)

(* ------------------------------- hash tables ---------------------------- *)
(* code: the hash code of every key; m: number of slots, a power of two       *)
Bucket(en, code, m, b) == SelectSeq(en, LAMBDA e : code[e[1]] % m = b)
RECURSIVE Buckets(_, _, _, _)
Buckets(en, code, m, b) == IF b < 0 THEN <<>> ELSE Bucket(en, code, m, b) \o Buckets(en, code, m, b - 1)
(* the entries, bucket after bucket, and for every slot where its run starts and ends *)
HashTable(en, code, m) ==
    [entries |-> Buckets(en, code, m, m - 1),
     slots   |-> [b \in 0..(m - 1) |->
        LET n == Len(Bucket(en, code, m, b))
            s == Len(Buckets(en, code, m, m - 1)) - Len(Buckets(en, code, m, b))
        IN  IF n = 0 THEN <<0, 0>> ELSE <<s, s + n>>]]
HashFind(t, code, m, k) ==
    LET r == t.slots[code[k] % m]
        f == {i \in (r[1] + 1)..r[2] : t.entries[i][1] = k}
    IN  IF f = {} THEN NONE ELSE t.entries[Min(f)][2]
(* every slot index has to fit the index type of the table                    *)
Fits(t, cap) == \A b \in DOMAIN t.slots : t.slots[b][1] <= cap /\ t.slots[b][2] <= cap

(* without collisions a slot is the number of its entry, 0 for none           *)
NoColl(en, code, m) == \A b \in 0..(m - 1) : Len(Bucket(en, code, m, b)) <= 1
NcSlots(en, code, m) == [b \in 0..(m - 1) |->
    LET f == {i \in DOMAIN en : code[en[i][1]] % m = b} IN IF f = {} THEN 0 ELSE Min(f)]
NcFind(en, code, m, k) ==
    LET i == NcSlots(en, code, m)[code[k] % m]
    IN  IF i # 0 /\ en[i][1] = k THEN en[i][2] ELSE NONE

(* the smallest power of two that is at least n                               *)
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 1 THEN 1 ELSE 2 * Pow2((n + 1) \div 2)
(* how many keys share their slot with an earlier one                         *)
Collisions(ks, code, m) == Cardinality(ks) - Cardinality({code[k] % m : k \in ks})
(* the size that the analysis of fewer than 128 codes settles on              *)
TableSize(ks, code) ==
    LET n  == Cardinality(ks)
        c  == {m \in {Pow2(n), 2 * Pow2(n), 4 * Pow2(n), 8 * Pow2(n), 16 * Pow2(n)} : m <= Pow2(10 * n)}
        ok == {m \in c : Collisions(ks, code, m) = 0}
    IN  IF n = 0 THEN 1 ELSE IF ok # {} THEN Min(ok) ELSE Min(c)

(* ------------------------------- scalars -------------------------------- *)
Span(ks) == Max(ks) - Min(ks) + 1
ScalarKind(ks, always, factor) ==
    IF ks = {} THEN "general"
    ELSE IF Span(ks) = Cardinality(ks) THEN "dense"
    ELSE IF Span(ks) <= always \/ Span(ks) < factor * Cardinality(ks) THEN "sparse"
    ELSE "general"
(* entries sorted by key; the entry of key k is found by its distance from the first *)
DenseFind(en, k) ==
    IF en = <<>> THEN NONE
    ELSE LET lo == en[1][1] hi == en[Len(en)][1]
         IN  IF k >= lo /\ k <= hi THEN en[k - lo + 1][2] ELSE NONE
SparseTable(en) ==
    LET lo == Min(KeysOf(en)) hi == Max(KeysOf(en))
    IN  [d \in 0..(hi - lo) |-> LET f == {i \in DOMAIN en : en[i][1] = lo + d} IN IF f = {} THEN 0 ELSE Min(f)]
SparseFind(en, k) ==
    IF en = <<>> THEN NONE
    ELSE LET lo == Min(KeysOf(en)) hi == Max(KeysOf(en)) t == SparseTable(en)
         IN  IF k < lo \/ k > hi THEN NONE ELSE IF t[k - lo] = 0 THEN NONE ELSE en[t[k - lo]][2]

(* ----------------------------- ordered keys ----------------------------- *)
(* the Eytzinger order of a sorted sequence: the in-order walk of the complete *)
(* binary tree whose node i has the children 2i and 2i+1                      *)
RECURSIVE InOrder(_, _)
InOrder(i, n) == IF i > n THEN <<>> ELSE InOrder(2 * i, n) \o <<i>> \o InOrder(2 * i + 1, n)
Eytzinger(s) == LET w == InOrder(1, Len(s)) IN [i \in 1..Len(s) |-> s[CHOOSE j \in DOMAIN w : w[j] = i]]
RECURSIVE EytFind(_, _, _)
EytFind(e, i, k) ==
    IF i > Len(e) THEN NONE
    ELSE IF e[i][1] = k THEN e[i][2]
    ELSE IF k < e[i][1] THEN EytFind(e, 2 * i, k) ELSE EytFind(e, 2 * i + 1, k)

(* ------------------------------- strings -------------------------------- *)
(* what is hashed of a string: its length, a left- or right-aligned range, all *)
Hashed(how, s) ==
    CASE how[1] = "length" -> <<Len(s)>>
      [] how[1] = "left"   -> IF Len(s) < how[3] THEN <<>> ELSE SubSeq(s, how[2] + 1, how[3])
      [] how[1] = "right"  -> IF Len(s) < how[3] THEN <<>> ELSE SubSeq(s, Len(s) - how[3] + 1, Len(s) - how[2])
      [] how[1] = "all"    -> s
Lens(S) == {Len(s) : s \in S}
PrefixLen(S) == LET c == {p \in 0..Min(Lens(S)) : \A s, t \in S : SubSeq(s, 1, p) = SubSeq(t, 1, p)} IN Max(c)
SuffixLen(S) == LET c == {p \in 0..Min(Lens(S)) : \A s, t \in S : SubSeq(s, Len(s) - p + 1, Len(s)) = SubSeq(t, Len(t) - p + 1, Len(t))} IN Max(c)
(* fewer than 20 keys: what is hashed has to tell all of them apart           *)
Unique(how, S) == \A s, t \in S : s # t => Hashed(how, s) # Hashed(how, t)
StringPlan(S) ==
    IF S = {} \/ \A s, t \in S : s # t => Len(s) # Len(t) THEN <<"length">>
    ELSE LET mn == Min(Lens(S)) mx == Max(Lens(S))
             L(n) == {i \in PrefixLen(S)..(mn - n) : Unique(<<"left", i, i + n>>, S)}
             R(n) == IF mn = mx THEN {} ELSE {i \in SuffixLen(S)..(mn - n) : Unique(<<"right", i, i + n>>, S)}
             ns == {n \in 1..Min({mn, 16}) : L(n) # {} \/ R(n) # {}}
         IN  IF ns = {} THEN <<"all">>
             ELSE LET n == Min(ns)
                  IN  IF L(n) # {} THEN (IF n = mx THEN <<"all">> ELSE <<"left", Min(L(n)), Min(L(n)) + n>>)
                      ELSE <<"right", Min(R(n)), Min(R(n)) + n>>
(* a hash table whose code is the hashed part itself                          *)
StringFind(en, how, s) ==
    LET f == {i \in DOMAIN en : Hashed(how, en[i][1]) = Hashed(how, s) /\ en[i][1] = s}
    IN  IF f = {} THEN NONE ELSE en[Min(f)][2]
=============================================================================
