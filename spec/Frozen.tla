------------------------------- MODULE Frozen -------------------------------
(***************************************************************************)
(* The abstract state machine every frozen collection has to implement:    *)
(* handles holding finite maps (a set is a map to 0), live iterators over  *)
(* them, and an account of how many values were created and destroyed.     *)
(*                                                                         *)
(* Every public call is one action; its observable result is an argument   *)
(* of the action, so an action is a relation between pre-state, call,      *)
(* result and post-state.  FrozenTrace replays recorded executions of the  *)
(* Rust code through these same actions; MCFrozen explores them.           *)
(*                                                                         *)
(* The order of enumeration is arbitrary but it is ONE order: ord is        *)
(* <<>> until a walk over the whole collection has shown it, and from then  *)
(* on every walk over the same collection follows it.                       *)
(***************************************************************************)
EXTENDS FrozenOps

VARIABLES coll,     \* handle -> [kind |-> "map" | "set", c |-> finite map, ord |-> sequence of keys]
          iter,     \* iterator id -> [src, h, g, w, c, ord, rem, left, seen]
          made,     \* number of values ever created
          gone      \* number of values destroyed

vars == <<coll, iter, made, gone>>

Handles   == DOMAIN coll
Iters     == DOMAIN iter
C(h)      == coll[h].c
Put(h, kind, c) == coll' = (h :> [kind |-> kind, c |-> c, ord |-> <<>>]) @@ coll
Store(h, c)     == coll' = [coll EXCEPT ![h].c = c]
Without(f, x)   == [y \in DOMAIN f \ {x} |-> f[y]]

Init == coll = <<>> /\ iter = <<>> /\ made = 0 /\ gone = 0

(* ------------------------------ construction --------------------------- *)
(* n entries go in, those shadowed by a later duplicate are destroyed.     *)
BuildC(h, kind, c, n) ==
    /\ h \notin Handles
    /\ Put(h, kind, c)
    /\ made' = made + n
    /\ gone' = gone + (n - Size(c))
    /\ UNCHANGED iter

Build(h, kind, en) == BuildC(h, kind, LastWins(en), Len(en))

(* A refused construction hands back nothing and keeps nothing.            *)
Refuse(h, n) ==
    /\ h \notin Handles
    /\ made' = made + n /\ gone' = gone + n
    /\ UNCHANGED <<coll, iter>>

(* Constructors with a documented limit refuse exactly beyond it.          *)
BuildLimited(h, kind, en, cap, dense, ok) ==
    LET c == LastWins(en)
    IN  /\ ok = (Size(c) <= cap /\ (dense => Contiguous(DOMAIN c)))
        /\ IF ok THEN BuildC(h, kind, c, Len(en)) ELSE Refuse(h, Len(en))

BuildLimitedC(h, kind, c, n, cap, ok) ==
    /\ ok = (Size(c) <= cap)
    /\ IF ok THEN BuildC(h, kind, c, n) ELSE Refuse(h, n)

CloneColl(h, g) ==
    /\ h \in Handles /\ g \notin Handles
    /\ Put(g, coll[h].kind, C(h))
    /\ made' = made + Size(C(h))
    /\ UNCHANGED <<iter, gone>>

DropColl(h) ==
    /\ h \in Handles
    /\ coll' = Without(coll, h)
    /\ gone' = gone + Size(C(h))
    /\ UNCHANGED <<iter, made>>

(* -------------------------------- queries ------------------------------ *)
Get(h, q, r)  == /\ Len(r) = Len(q)
                 /\ Is(\A i \in DOMAIN q : r[i] = Lookup(C(h), q[i]))
                 /\ UNCHANGED vars
HasQ(h, q, r) == /\ Len(r) = Len(q)
                 /\ Is(\A i \in DOMAIN q : r[i] = Has(C(h), q[i]))
                 /\ UNCHANGED vars
Gkv(h, q, r)  == /\ Len(r) = Len(q)
                 /\ Is(\A i \in DOMAIN q : r[i] = KeyValue(C(h), q[i]))
                 /\ UNCHANGED vars
(* indexing panics (r = NONE) exactly on absent keys                       *)
Idx(h, k, r)  == r = Lookup(C(h), k) /\ UNCHANGED vars
LenQ(h, n, e) == n = Size(C(h)) /\ e = (Size(C(h)) = 0) /\ UNCHANGED vars
(* containers made with n elements, seen through the length trait           *)
LenOf(n, r, em) == /\ \A j \in DOMAIN r : r[j] = n
                   /\ \A j \in DOMAIN em : em[j] = (n = 0)
                   /\ UNCHANGED vars
(* the whole content, in any order, each entry once                        *)
AllQ(h, w, r) == Is(BagEq(r, w, C(h), DOMAIN C(h))) /\ UNCHANGED vars
(* a walk by an iterator: it follows the order, or shows it                 *)
WalkQ(h, w, r) ==
    LET o == coll[h].ord
    IN  /\ Is(BagEq(r, w, C(h), DOMAIN C(h)))
        /\ o # <<>> => r = [j \in DOMAIN o |-> Item(w, C(h), o[j])]
        /\ coll' = IF o = <<>> /\ w # "v"
                   THEN [coll EXCEPT ![h].ord = [j \in DOMAIN r |-> r[j][1]]] ELSE coll
        /\ UNCHANGED <<iter, made, gone>>

(* every key of the universe was asked for (or everything was enumerated):   *)
(* the answers, as segments, n in number                                    *)
ScanQ(h, w, sg, n) ==
    /\ Is(IF w = "k" THEN SegsName(sg, n, DOMAIN C(h)) ELSE SegsAre(sg, n, C(h)))
    /\ UNCHANGED vars

(* ------------------------------- mutation ------------------------------ *)
SetVal(h, k, v, r) ==
    /\ r = Lookup(C(h), k)
    /\ IF r = NONE
       THEN UNCHANGED vars
       ELSE /\ Store(h, [C(h) EXCEPT ![k] = v])
            /\ made' = made + 1 /\ gone' = gone + 1
            /\ UNCHANGED iter

(* one mutable walk over everything that adds d to every value: n were met    *)
Bump(h, d, n) ==
    /\ n = Size(C(h))
    /\ Store(h, [k \in DOMAIN C(h) |-> C(h)[k] + d])
    /\ made' = made + n /\ gone' = gone + n
    /\ UNCHANGED iter

(* get_disjoint_mut: duplicate request => panic and nothing changes;        *)
(* otherwise positionally aligned results, all of them writable.           *)
Disjoint(h, q, w, r, panicked) ==
    /\ panicked = ~AllDistinct(q)
    /\ IF panicked
       THEN UNCHANGED vars
       ELSE LET hit == {i \in DOMAIN q : Has(C(h), q[i]) /\ w[i] # NONE}
            IN  /\ Len(r) = Len(q)
                /\ Is(\A i \in DOMAIN q : r[i] = Lookup(C(h), q[i]))
                /\ Store(h, WriteAll(C(h), q, w))
                /\ made' = made + Cardinality(hit)
                /\ gone' = gone + Cardinality(hit)
                /\ UNCHANGED iter

(* The same request on a map whose values take no space, made for it from  *)
(* the keys en: its size, by counting too, and who was found.              *)
ZeroSized(en, q, n, all, r, panicked) ==
    LET ks == {en[j] : j \in DOMAIN en}
    IN  /\ n = Cardinality(ks) /\ all = n
        /\ panicked = ~AllDistinct(q)
        /\ ~panicked => r = [i \in DOMAIN q |-> q[i] \in ks]
        /\ UNCHANGED vars

(* ------------------------------ comparison ----------------------------- *)
Eq(h, g, r)      == r = (C(h) = C(g)) /\ UNCHANGED vars
RelQ(op, h, g, r) == r = Rel(op, DOMAIN C(h), DOMAIN C(g)) /\ UNCHANGED vars
SetOpQ(op, h, g, r) ==
    /\ LET S == SetOp(op, DOMAIN C(h), DOMAIN C(g))
       IN  Is(BagEq(r, "k", [k \in S |-> 0], S))
    /\ UNCHANGED vars

(* the same, the result given as segments                                   *)
SetOpScan(op, h, g, sg, n) ==
    /\ Is(SegsName(sg, n, SetOp(op, DOMAIN C(h), DOMAIN C(g))))
    /\ UNCHANGED vars

(* ------------------------------- iterators ----------------------------- *)
(* src: "ref" borrows h, "mut" borrows h mutably, "own" consumed h, "op"    *)
(* is a lazy set operation.  left: how many entries are still to come,      *)
(* rem: the keys they are among (more than left once entries were skipped   *)
(* unseen), seen: keys yielded.                                             *)
Content(it) == IF it.src \in {"ref", "mut"} THEN C(it.h) ELSE it.c

OpenIter(i, h, w, src) ==
    /\ i \notin Iters /\ h \in Handles /\ src \in {"ref", "mut", "own"}
    /\ iter' = (i :> [src |-> src, h |-> h, g |-> h, w |-> w,
                      c |-> IF src = "own" THEN C(h) ELSE Empty,
                      ord |-> coll[h].ord, rem |-> DOMAIN C(h), left |-> Size(C(h)), seen |-> {}]) @@ iter
    /\ coll' = IF src = "own" THEN Without(coll, h) ELSE coll
    /\ UNCHANGED <<made, gone>>

OpenOp(i, op, h, g) ==
    /\ i \notin Iters
    /\ LET S == SetOp(op, DOMAIN C(h), DOMAIN C(g))
       IN  iter' = (i :> [src |-> "op", h |-> h, g |-> g, w |-> "k",
                          c |-> [k \in S |-> 0], ord |-> <<>>, rem |-> S, left |-> Cardinality(S), seen |-> {}]) @@ iter
    /\ UNCHANGED <<coll, made, gone>>

(* n entries go by, the last of them being k                                *)
Advance(i, n, k) == LET it == iter[i]
                    IN  iter' = [iter EXCEPT ![i].rem = IF it.left = n THEN {} ELSE @ \ {k},
                                             ![i].left = @ - n, ![i].seen = @ \cup {k}]
Exhaust(i, ks) == iter' = [iter EXCEPT ![i].rem = {}, ![i].left = 0, ![i].seen = @ \cup ks]
(* the entries still to come, in order, when the order is known              *)
Known(it)    == it.ord # <<>>
Coming(it)   == SubSeq(it.ord, Len(it.ord) - it.left + 1, Len(it.ord))
(* which entries may come when n others went by first                        *)
Behind(it, n) == IF n >= it.left THEN {} ELSE IF Known(it) THEN {Coming(it)[n + 1]} ELSE it.rem
Final(it)     == IF it.left = 0 THEN {} ELSE IF Known(it) THEN {Last(it.ord)} ELSE it.rem
(* items are entries that may still come, each of them at most once         *)
AmongLeft(items, w, it) ==
    LET c == Content(it)
    IN  IF Known(it)
        THEN BagEq(items, w, c, Rng(Coming(it)))
        ELSE IF it.left = Cardinality(it.rem)
        THEN BagEq(items, w, c, it.rem)
        ELSE /\ Len(items) = it.left
             /\ \A x \in Rng(items) :
                   Cardinality({j \in DOMAIN items : items[j] = x})
                     <= Cardinality({k \in it.rem : Item(w, c, k) = x})

(* r = <<>> means the iterator reported its end; nv is the value written    *)
(* through the yielded reference (NONE: nothing written).                   *)
Next1(i, r, nv) ==
    LET it == iter[i]
    IN  IF it.left = 0
        THEN r = <<>> /\ UNCHANGED vars
        ELSE \E k \in Behind(it, 0) :
                /\ r = Item(it.w, Content(it), k)
                /\ Advance(i, 1, k)
                /\ IF it.src = "mut" /\ nv # NONE
                   THEN /\ Store(it.h, [C(it.h) EXCEPT ![k] = nv])
                        /\ made' = made + 1 /\ gone' = gone + 1
                   ELSE /\ UNCHANGED <<coll, made>>
                        /\ gone' = gone + (IF it.src = "own" THEN 1 ELSE 0)

(* nth(n): n entries are skipped, the one behind them is yielded; skipping   *)
(* to or beyond the end leaves nothing                                      *)
Nth(i, n, r) ==
    LET it == iter[i]
    IN  /\ IF n >= it.left
           THEN r = <<>> /\ Exhaust(i, {})
           ELSE \E k \in Behind(it, n) :
                   /\ r = Item(it.w, Content(it), k)
                   /\ Advance(i, n + 1, k)
        /\ gone' = gone + (IF it.src = "own" THEN Min({n + 1, it.left}) ELSE 0)
        /\ UNCHANGED <<coll, made>>

(* hi = NONE: no upper bound was offered                                    *)
SizeHint(i, lo, hi) ==
    LET n == iter[i].left
    IN  /\ IF iter[i].src = "op"
           THEN lo <= n /\ (hi = NONE \/ n <= hi)
           ELSE lo = n /\ hi = n
        /\ UNCHANGED vars

(* debug output of an iterator shows exactly what is left, changing nothing  *)
PeekIter(i, w, r) ==
    /\ Is(AmongLeft(r, w, iter[i]))
    /\ UNCHANGED vars

CloneIter(i, j) ==
    /\ j \notin Iters
    /\ iter' = (j :> iter[i]) @@ iter
    /\ made' = made + (IF iter[i].src = "own" THEN iter[i].left ELSE 0)
    /\ UNCHANGED <<coll, gone>>

(* drain: everything that is left, by any consuming adapter                 *)
Rest(i, r) ==
    LET it == iter[i]
    IN  /\ IF Known(it)
           THEN r = [j \in DOMAIN Coming(it) |-> Item(it.w, Content(it), Coming(it)[j])]
           ELSE Is(AmongLeft(r, it.w, it))
        /\ Exhaust(i, it.rem)
        /\ gone' = gone + (IF it.src = "own" THEN it.left ELSE 0)
        /\ UNCHANGED <<coll, made>>

(* the entry a walk to the end would have yielded last                      *)
LastRest(i, r) ==
    LET it == iter[i]
    IN  /\ IF it.left = 0 THEN r = <<>>
           ELSE \E k \in Final(it) : r = Item(it.w, Content(it), k)
        /\ Exhaust(i, {})
        /\ gone' = gone + (IF it.src = "own" THEN it.left ELSE 0)
        /\ UNCHANGED <<coll, made>>

CountRest(i, n) ==
    LET it == iter[i]
    IN  /\ n = it.left
        /\ Exhaust(i, it.rem)
        /\ gone' = gone + (IF it.src = "own" THEN it.left ELSE 0)
        /\ UNCHANGED <<coll, made>>

CloseIter(i) ==
    /\ i \in Iters
    /\ iter' = Without(iter, i)
    /\ gone' = gone + (IF iter[i].src = "own" THEN iter[i].left ELSE 0)
    /\ UNCHANGED <<coll, made>>

(* ------------------------------ ownership ------------------------------ *)
Live(n) == n = made - gone /\ UNCHANGED vars

(* ============================== properties ============================= *)
Held == MapThenSumSet(LAMBDA h : Size(C(h)), Handles)
        + MapThenSumSet(LAMBDA i : IF iter[i].src = "own"
                                   THEN iter[i].left ELSE 0, Iters)
(* every value is owned by exactly one live collection or iterator, or has  *)
(* been destroyed                                                           *)
Conservation == made - gone = Held

(* what was yielded and what is to come are disjoint parts of the content,   *)
(* and all of it unless something was skipped                               *)
IterPartition ==
    \A i \in Iters :
       LET it == iter[i]
           D  == DOMAIN Content(it)
       IN  /\ it.rem \cap it.seen = {}
           /\ it.rem \cup it.seen \subseteq D
           /\ 0 <= it.left /\ it.left <= Cardinality(it.rem)
           /\ (it.left = 0) = (it.rem = {})
           /\ it.left = Cardinality(it.rem) /\ it.left > 0 =>
                 it.rem \cup it.seen = D
           /\ Known(it) => Rng(Coming(it)) \subseteq it.rem

(* keys are decided at construction and never change                        *)
FrozenKeys ==
    [][\A h \in Handles \cap DOMAIN coll' : DOMAIN C(h) = DOMAIN coll'[h].c]_vars

(* an order, once shown, is an order of the keys and stays                   *)
OneOrder ==
    /\ \A h \in Handles : LET o == coll[h].ord
                           IN  o = <<>> \/ (Rng(o) = DOMAIN C(h) /\ Len(o) = Size(C(h)))
OrderStays ==
    [][\A h \in Handles \cap DOMAIN coll' : coll[h].ord # <<>> => coll'[h].ord = coll[h].ord]_vars

(* one step changes the content of at most one collection                   *)
Isolation ==
    [][Cardinality({h \in Handles \cap DOMAIN coll' : C(h) # coll'[h].c}) <= 1]_vars

(* a set never changes                                                      *)
SetsImmutable ==
    [][\A h \in Handles \cap DOMAIN coll' :
          coll[h].kind = "set" => C(h) = coll'[h].c]_vars

(* set algebra over all live pairs                                          *)
Algebra ==
    \A h, g \in Handles :
       LET A == DOMAIN C(h)
           B == DOMAIN C(g)
       IN  /\ Cardinality(SetOp("union", A, B)) + Cardinality(SetOp("inter", A, B))
                = Cardinality(A) + Cardinality(B)
           /\ SetOp("sym", A, B) = SetOp("union", A, B) \ SetOp("inter", A, B)
           /\ SetOp("diff", A, B) = SetOp("inter", A, SetOp("diff", A, B))
           /\ Rel("sub", A, B) = Rel("sup", B, A)
           /\ Rel("dis", A, B) = (SetOp("inter", A, B) = {})
           /\ (Rel("sub", A, B) /\ Rel("sub", B, A)) = (A = B)
=============================================================================
