------------------------------ MODULE GenWild -------------------------------
(* Random walks through Wild (TLC -simulate), logged as the calls to make, in *)
(* the numeric form the driver reads.  Where Wild leaves the answer open the  *)
(* walk takes the lawful one; what really happens is up to the keys.         *)
EXTENDS Wild, Json
CONSTANTS NH, NK, MaxEn, Depth, Kind
VARIABLES log, made
gvars == <<wvars, log, made>>

Keys  == 0..(NK - 1)
Pick(S) == {RandomElement(S)}
One(S)  == IF S = {} THEN {} ELSE Pick(S)
Log(x)  == log' = Append(log, x)
Fresh(n) == [j \in 1..n |-> IF Kind = "set" THEN <<made + j, 0>> ELSE <<made + j, made + j>>]
Same == UNCHANGED <<wvars, made>>
(* a query: of the key's own type, or of one whose equality is finer          *)
Query == UNION {{k, 1000 + k, 2000 + k} : k \in 0..NK}

GMode  == \E e \in Pick(0..4), o \in Pick(0..6), h \in Pick(0..6), i \in Pick(0..7) : Same /\ Log(<<0, e, o, h, i>>)
GLaw   == Same /\ Log(<<0, 0, 0, 0, 0>>)
GFuse  == \E n \in Pick(1..40) : Same /\ Log(<<1, n>>)
GBuild == \E h \in One(1..NH \ Handles), n \in Pick(0..MaxEn) : \E ks \in Pick([1..n -> Keys]), it \in Pick({0, 1}) :
             /\ WBuild(h, Kind, Fresh(n), Fresh(n), TRUE, FALSE) /\ made' = made + n
             /\ Log(<<2, h, it>> \o ks)
GClone == \E h \in One(Handles), g \in One(1..NH \ Handles) : WClone(h, g, FALSE) /\ UNCHANGED made /\ Log(<<3, h, g>>)
GDrop  == \E h \in One(Handles) : WDrop(h, FALSE) /\ UNCHANGED made /\ Log(<<4, h>>)
GLook  == \E h \in One(Handles), o \in Pick(IF Kind = "set" THEN {5, 7, 8} ELSE 5..8), k \in Pick(Query) :
             Same /\ Log(<<o, h, IF o = 6 THEN k % 1000 ELSE k>>)
GPut   == \E h \in One(Handles), k \in Pick(Query) : Kind = "map" /\ Same /\ Log(<<9, h, k>>)
GDis   == \E h \in One(Handles), f \in Pick({0, 1}), n \in Pick(1..4) : \E ks \in Pick([1..n -> 0..NK]), ts \in Pick([1..n -> 1..3]) :
             Kind = "map" /\ Same /\ Log(<<10, h>> \o [j \in 1..n |-> ks[j] + f * 1000 * ts[j]])
GAll   == \E h \in One(Handles), w \in Pick(IF Kind = "set" THEN {0, 1} ELSE 0..2) : Same /\ Log(<<11, h, w>>)
GBump  == \E h \in One(Handles), w \in Pick({0, 2}) : Kind = "map" /\ Same /\ Log(<<12, h, w>>)
GTake  == \E h \in One(Handles), n \in Pick(0..(MaxEn + 1)), w \in Pick(IF Kind = "set" THEN {0, 1} ELSE 0..2) :
             WDrop(h, FALSE) /\ UNCHANGED made /\ Log(<<13, h, n, w>>)
GLen   == \E h \in One(Handles) : Same /\ Log(<<14, h>>)
GEq    == \E h \in One(Handles), g \in One(Handles) : Same /\ Log(<<15, h, g>>)
GRel   == \E h \in One(Handles), g \in One(Handles), o \in Pick(0..2) : Kind = "set" /\ Same /\ Log(<<16, h, g, o>>)
GOp    == \E h \in One(Handles), g \in One(Handles), o \in Pick(0..7) : Kind = "set" /\ Same /\ Log(<<17, h, g, o>>)
GSteps == \E h \in One(Handles), g \in One(Handles), o \in Pick(0..3), n \in Pick({0, 1, 2, 3, 5, 9}) : Kind = "set" /\ Same /\ Log(<<19, h, g, o, n>>)
GDFuse == \E n \in Pick(1..6) : Same /\ Log(<<20, n>>)
GLive  == Same /\ Log(<<18>>)

GenNext == Len(log) < Depth /\
    (GMode \/ GLaw \/ GFuse \/ GBuild \/ GClone \/ GDrop \/ GLook \/ GPut \/ GDis \/ GAll \/ GBump \/ GTake \/ GLen
     \/ GEq \/ GRel \/ GOp \/ GSteps \/ GDFuse \/ GLive)
GenSpec == WInit /\ log = <<>> /\ made = 0 /\ [][GenNext]_gvars
Dump == Len(log) < Depth \/ PrintT(ToJson(log))
=============================================================================
