----------------------------- MODULE FrozenOps -----------------------------
(***************************************************************************)
(* Pure vocabulary of the frozen-collections specification: what a         *)
(* sequence of entries MEANS as a finite map, what a lookup, an            *)
(* enumeration, a set operation or a comparison must return.  Keys and     *)
(* values are opaque integers here; the conformance harness fixes an       *)
(* injective mapping between these integers and concrete Rust keys.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

(* p, a predicate on the current state, evaluated as one value: TLC otherwise *)
(* treats its quantifiers as choices between successor states                *)
Is(p) == p = TRUE
NONE == -1                 \* "no value": absent key, exhausted iterator
Rng(s) == {s[i] : i \in DOMAIN s}
Empty == [k \in {} |-> 0]

(* --- construction ------------------------------------------------------ *)
(* A collection built from entries <<k, v>> maps every key that occurs to  *)
(* the value of its LAST occurrence.                                       *)
KeysOf(en) == {en[i][1] : i \in DOMAIN en}
LastWins(en) ==
    [k \in KeysOf(en) |-> en[Max({i \in DOMAIN en : en[i][1] = k})][2]]

(* Large inputs are described by segments <<k0, n, step, v0>>: the entries  *)
(* <<k0 + i*step, v0 + i>> for i in 0..n-1, segment after segment.          *)
SegKeys(s)     == {s[1] + i * s[3] : i \in 0..(s[2] - 1)}
SegHas(s, k)   == /\ k >= s[1]
                  /\ (k - s[1]) % s[3] = 0
                  /\ (k - s[1]) \div s[3] < s[2]
SegVal(s, k)   == s[4] + ((k - s[1]) \div s[3])
SegsKeys(sg)   == IF Len(sg) = 1 THEN SegKeys(sg[1])
                  ELSE FoldLeft(LAMBDA a, s : a \cup SegKeys(s), {}, sg)
RECURSIVE LastSeg(_, _, _)
LastSeg(sg, j, k) == IF SegHas(sg[j], k) THEN sg[j] ELSE LastSeg(sg, j - 1, k)
LastWinsSegs(sg) ==
    IF Len(sg) = 1 THEN [k \in SegKeys(sg[1]) |-> SegVal(sg[1], k)]
    ELSE [k \in SegsKeys(sg) |-> SegVal(LastSeg(sg, Len(sg), k), k)]
SegsContent(kind, sg) ==
    IF kind = "set" THEN [k \in SegsKeys(sg) |-> 0] ELSE LastWinsSegs(sg)
(* the segments, n entries in all, name exactly the keys D, in ascending     *)
(* order and each once                                                       *)
SegsName(sg, n, D) ==
    /\ n = Cardinality(D)
    /\ n = FoldLeft(LAMBDA a, s : a + s[2], 0, sg)
    /\ \A j \in 1..(Len(sg) - 1) : sg[j][1] + (sg[j][2] - 1) * sg[j][3] < sg[j + 1][1]
    /\ \A j \in DOMAIN sg :
          LET s == sg[j] IN s[3] > 0 /\ \A i \in 0..(s[2] - 1) : (s[1] + i * s[3]) \in D
(* and give every key its value in c                                         *)
SegsAre(sg, n, c) ==
    /\ SegsName(sg, n, DOMAIN c)
    /\ \A j \in DOMAIN sg :
          LET s == sg[j] IN \A i \in 0..(s[2] - 1) : c[s[1] + i * s[3]] = s[4] + i

(* --- queries ----------------------------------------------------------- *)
Lookup(c, k) == IF k \in DOMAIN c THEN c[k] ELSE NONE
Has(c, k)    == k \in DOMAIN c
KeyValue(c, k) == IF k \in DOMAIN c THEN <<k, c[k]>> ELSE <<>>
Size(c)      == Cardinality(DOMAIN c)

(* --- enumeration ------------------------------------------------------- *)
(* w selects what an enumeration yields: pairs, keys or values.            *)
Item(w, c, k) == CASE w = "kv" -> <<k, c[k]>>
                   [] w = "k"  -> <<k>>
                   [] w = "v"  -> <<c[k]>>

BagEq(items, w, c, ks) ==
    LET want == {Item(w, c, k) : k \in ks}
        got  == Rng(items)
    IN  /\ Len(items) = Cardinality(ks)
        /\ got = want
        /\ \/ Cardinality(want) = Cardinality(ks)
           \/ \A x \in want :
                 Cardinality({i \in DOMAIN items : items[i] = x})
                   = Cardinality({k \in ks : Item(w, c, k) = x})

(* --- set algebra ------------------------------------------------------- *)
SetOp(op, A, B) == CASE op = "union" -> A \cup B
                     [] op = "inter" -> A \cap B
                     [] op = "diff"  -> A \ B
                     [] op = "sym"   -> (A \ B) \cup (B \ A)
Rel(op, A, B)   == CASE op = "sub" -> A \subseteq B
                     [] op = "sup" -> B \subseteq A
                     [] op = "dis" -> A \cap B = {}

(* --- simultaneous mutable access --------------------------------------- *)
AllDistinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
WriteAll(c, q, w) ==       \* w[i] is written to key q[i]; absent keys are ignored
    [k \in DOMAIN c |-> IF \E i \in DOMAIN q : q[i] = k /\ w[i] # NONE
                        THEN w[CHOOSE i \in DOMAIN q : q[i] = k]
                        ELSE c[k]]

(* --- construction limits ------------------------------------------------ *)
Contiguous(ks) == \/ ks = {}
                  \/ Cardinality(ks) = Max(ks) - Min(ks) + 1
=============================================================================
