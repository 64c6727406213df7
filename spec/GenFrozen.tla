------------------------------ MODULE GenFrozen ------------------------------
(***************************************************************************)
(* Random walks through Frozen (TLC -simulate).  Each walk is logged as the *)
(* sequence of calls that was made; the driver turns every logged call into *)
(* calls on concrete Rust collections.  Values are fresh: the i-th value    *)
(* created anywhere in the walk is number i.                                *)
(***************************************************************************)
EXTENDS Frozen, Json

CONSTANTS NK, NH, NI, MaxEn, Depth, Kind

VARIABLE log
gvars == <<vars, log>>

Keys     == 0..(NK - 1)
AnyKey   == 0..NK                    \* NK is never stored
KeySeqs  == UNION {[1..n -> Keys] : n \in 0..MaxEn}
KeyReqs  == UNION {[1..n -> AnyKey] : n \in 0..4}
Pick(S)  == {RandomElement(S)}       \* one random choice; empty when S is
One(S)   == IF S = {} THEN {} ELSE Pick(S)
Log(x)   == log' = Append(log, x)
FreshEn(ks) == [j \in DOMAIN ks |-> <<ks[j], IF Kind = "set" THEN 0 ELSE made + j>>]

Borrows(i)   == IF iter[i].src = "own" THEN {} ELSE {iter[i].h, iter[i].g}
Usable       == {h \in Handles : \A i \in Iters : iter[i].src = "mut" => h \notin Borrows(i)}
Free         == {h \in Handles : \A i \in Iters : h \notin Borrows(i)}
NewH         == 1..NH \ Handles
NewI         == 1..NI \ Iters

GBuild == \E h \in One(NewH), ks \in Pick(KeySeqs) :
             Build(h, Kind, FreshEn(ks)) /\ Log(<<"build", h, Kind, FreshEn(ks)>>)
GClone == \E h \in One(Usable), g \in One(NewH) : CloneColl(h, g) /\ Log(<<"clone", h, g>>)
GDrop  == \E h \in One(Free) : DropColl(h) /\ Log(<<"drop", h>>)
GObs   == \E h \in One(Usable), ks \in Pick(KeyReqs) : UNCHANGED vars /\ Log(<<"obs", h, ks>>)
GSet   == \E h \in One(Free), k \in Pick(AnyKey) :
             Kind = "map" /\ SetVal(h, k, made + 1, Lookup(C(h), k)) /\ Log(<<"set", h, k, made + 1>>)
GDis   == \E h \in One(Free), q \in Pick(KeyReqs) :
             /\ Kind = "map"
             /\ LET w == [j \in DOMAIN q |-> made + j]
                IN  /\ Disjoint(h, q, w, [j \in DOMAIN q |-> Lookup(C(h), q[j])], ~AllDistinct(q))
                    /\ Log(<<"dis", h, q, w>>)
GEq    == \E h \in One(Usable), g \in One(Usable) : UNCHANGED vars /\ Log(<<"eq", h, g>>)
GRel   == \E h \in One(Usable), g \in One(Usable) : Kind = "set" /\ UNCHANGED vars /\ Log(<<"rel", h, g>>)
GSop   == \E h \in One(Usable), g \in One(Usable), op \in Pick({"union", "inter", "diff", "sym"}) :
             Kind = "set" /\ UNCHANGED vars /\ Log(<<"sop", op, h, g>>)
GOpen  == \E i \in One(NewI), h \in One(Usable), w \in Pick(IF Kind = "set" THEN {"k"} ELSE {"kv", "k", "v"}) :
             OpenIter(i, h, w, "ref") /\ Log(<<"open", i, h, w, "ref">>)
GOpenM == \E i \in One(NewI), h \in One(Free), w \in Pick({"kv", "v"}) :
             Kind = "map" /\ OpenIter(i, h, w, "mut") /\ Log(<<"open", i, h, w, "mut">>)
GOpenX == \E i \in One(NewI), h \in One(Free), w \in Pick(IF Kind = "set" THEN {"k"} ELSE {"kv", "k", "v"}) :
             OpenIter(i, h, w, "own") /\ Log(<<"open", i, h, w, "own">>)
GOpenO == \E i \in One(NewI), h \in One(Usable), g \in One(Usable), op \in Pick({"union", "inter", "diff", "sym"}) :
             Kind = "set" /\ OpenOp(i, op, h, g) /\ Log(<<"openop", i, op, h, g>>)
(* which entry comes next is the implementation's choice: the walk assumes   *)
(* the smallest and the validator follows what really happened; so only the  *)
(* number of steps is meaningful, not the key                               *)
GNext  == \E i \in One(Iters) :
             LET it == iter[i]
                 nv == IF it.src = "mut" THEN made + 1 ELSE NONE
             IN  /\ IF it.left = 0 THEN Next1(i, <<>>, nv)
                    ELSE Next1(i, Item(it.w, Content(it), Min(it.rem)), nv)
                 /\ Log(<<"next", i, nv>>)
(* unlike Next1, skipping leaves it open which entries are gone             *)
GNth   == \E i \in One(Iters), n \in Pick(0..3) :
             LET it == iter[i]
             IN  /\ Nth(i, n, IF n >= it.left THEN <<>> ELSE Item(it.w, Content(it), Min(it.rem)))
                 /\ Log(<<"nth", i, n>>)
GSize  == \E i \in One(Iters) : UNCHANGED vars /\ Log(<<"size", i>>)
GDbg   == \E i \in One(Iters) : UNCHANGED vars /\ Log(<<"idbg", i>>)
GCl    == \E i \in One({x \in Iters : iter[x].src \in {"ref", "op"}}), j \in One(NewI) :
             CloneIter(i, j) /\ Log(<<"icl", i, j>>)
GRest  == \E i \in One(Iters) : 
             /\ iter' = Without(iter, i)
             /\ gone' = gone + (IF iter[i].src = "own" THEN iter[i].left ELSE 0)
             /\ UNCHANGED <<coll, made>>
             /\ Log(<<RandomElement({"rest", "cnt", "close", "last"}), i>>)
GLive  == UNCHANGED vars /\ Log(<<"live">>)

GenInit == Init /\ log = <<>>
GenNext == GBuild \/ GClone \/ GDrop \/ GObs \/ GSet \/ GDis \/ GEq \/ GRel \/ GSop \/ GOpen \/ GOpenM
           \/ GOpenX \/ GOpenO \/ GNext \/ GNth \/ GSize \/ GDbg \/ GCl \/ GRest \/ GLive
GenSpec == GenInit /\ [][GenNext]_gvars
Dump    == Len(log) = Depth => PrintT(ToJson(log))
Short   == Len(log) < Depth + 1
=============================================================================
