------------------------------ MODULE MCFrozen ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Frozen over small universes, restricted to     *)
(* the call sequences Rust's borrow rules allow.                            *)
(***************************************************************************)
EXTENDS Frozen

CONSTANTS Keys, Vals, HandleIds, IterIds, MaxEn, Kind, Walks

Entries == Keys \X (IF Kind = "set" THEN {0} ELSE Vals)
Inputs  == UNION {[1..n -> Entries] : n \in 0..MaxEn}
Queries == UNION {[1..n -> Keys \cup {99}] : n \in 0..2}

(* --- what the borrow checker lets a client do --------------------------- *)
Borrows(i)   == IF iter[i].src = "own" THEN {} ELSE {iter[i].h, iter[i].g}
Shared(h)    == \A i \in Iters : iter[i].src = "mut" => h \notin Borrows(i)
Exclusive(h) == \A i \in Iters : h \notin Borrows(i)
MayUse(h)    == h \in Handles /\ Shared(h)
MayMutate(h) == h \in Handles /\ Exclusive(h) /\ coll[h].kind = "map"

DoBuild  == \E h \in HandleIds, en \in Inputs : Build(h, Kind, en)
DoLimit  == \E h \in HandleIds, en \in Inputs, cap \in {1}, d \in BOOLEAN, ok \in BOOLEAN :
                BuildLimited(h, Kind, en, cap, d, ok)
DoClone  == \E h, g \in HandleIds : MayUse(h) /\ CloneColl(h, g)
DoDrop   == \E h \in HandleIds : h \in Handles /\ Exclusive(h) /\ DropColl(h)
DoSet    == \E h \in HandleIds, k \in Keys, v \in Vals :
                MayMutate(h) /\ SetVal(h, k, v, Lookup(C(h), k))
DoBump   == \E h \in HandleIds :
                /\ MayMutate(h)
                /\ \A k \in DOMAIN C(h) : C(h)[k] + 1 \in Vals
                /\ Bump(h, 1, Size(C(h)))
DoDis    == \E h \in HandleIds, q \in Queries, v \in Vals, p \in BOOLEAN :
                /\ MayMutate(h)
                /\ Disjoint(h, q, [j \in DOMAIN q |-> v],
                            [j \in DOMAIN q |-> Lookup(C(h), q[j])], p)
DoOpen   == \E i \in IterIds, h \in HandleIds, w \in {"kv", "k", "v"},
               src \in (IF Kind = "set" THEN {"ref", "own"} ELSE {"ref", "mut", "own"}) :
                /\ CASE src = "ref" -> MayUse(h)
                     [] src = "mut" -> MayMutate(h) /\ w # "k"
                     [] src = "own" -> h \in Handles /\ Exclusive(h)
                /\ (Kind = "set" => w = "k")
                /\ OpenIter(i, h, w, src)
DoOpenOp == \E i \in IterIds, h, g \in HandleIds, op \in {"union", "inter", "diff", "sym"} :
                Kind = "set" /\ MayUse(h) /\ MayUse(g) /\ OpenOp(i, op, h, g)
DoNext   == \E i \in IterIds : i \in Iters /\
                \/ iter[i].left = 0 /\ Next1(i, <<>>, NONE)
                \/ \E k \in Behind(iter[i], 0), nv \in Vals \cup {NONE} :
                      /\ iter[i].src # "mut" => nv = NONE
                      /\ Next1(i, Item(iter[i].w, Content(iter[i]), k), nv)
DoNth    == \E i \in IterIds, n \in 0..2 : i \in Iters /\
                \/ n >= iter[i].left /\ Nth(i, n, <<>>)
                \/ \E k \in iter[i].rem : Nth(i, n, Item(iter[i].w, Content(iter[i]), k))
DoCloneI == \E i, j \in IterIds : i \in Iters /\ iter[i].src \in {"ref", "op"} /\ CloneIter(i, j)
DoRest   == \E i \in IterIds : i \in Iters /\
                LET it == iter[i]
                    ks == IF Known(it) THEN Coming(it) ELSE SetToSeq(it.rem)
                    items == [n \in 1..it.left |-> Item(it.w, Content(it), ks[n])]
                IN  Rest(i, items)
DoLast   == \E i \in IterIds : i \in Iters /\
                \/ iter[i].left = 0 /\ LastRest(i, <<>>)
                \/ \E k \in iter[i].rem : LastRest(i, Item(iter[i].w, Content(iter[i]), k))
DoWalk   == Walks /\ \E h \in HandleIds : MayUse(h) /\
                \E o \in SetToSeqs(DOMAIN C(h)) : WalkQ(h, "k", [j \in DOMAIN o |-> <<o[j]>>])
DoCount  == \E i \in IterIds : i \in Iters /\ CountRest(i, iter[i].left)
DoClose  == \E i \in IterIds : CloseIter(i)

MCNext == DoBuild \/ DoLimit \/ DoClone \/ DoDrop \/ DoSet \/ DoBump \/ DoDis \/ DoOpen \/ DoOpenOp
          \/ DoNext \/ DoNth \/ DoCloneI \/ DoRest \/ DoLast \/ DoWalk \/ DoCount \/ DoClose
MCSpec == Init /\ [][MCNext]_vars

(* created and destroyed grow without bound; only their difference matters  *)
MCView == <<coll, iter, made - gone>>

(* --- the properties, over everything reachable --------------------------- *)
TypeOK == /\ \A h \in Handles : DOMAIN C(h) \subseteq Keys
          /\ made >= gone
QueriesAgree ==
    \A h \in Handles, k \in Keys \cup {99} :
       /\ Has(C(h), k) = (Lookup(C(h), k) # NONE)
       /\ (KeyValue(C(h), k) = <<>>) = ~Has(C(h), k)
       /\ Has(C(h), k) => KeyValue(C(h), k) = <<k, Lookup(C(h), k)>>
BorrowSafe ==           \* a mutable iterator's collection is borrowed by nothing else
    \A i, j \in Iters : i # j /\ iter[i].src = "mut" => Borrows(i) \cap Borrows(j) = {}
(* a hint that bounds what is left keeps bounding it as the iterator advances *)
HintsBound == \A i \in Iters : iter[i].left <= Cardinality(DOMAIN Content(iter[i]))
=============================================================================
