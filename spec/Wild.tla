-------------------------------- MODULE Wild --------------------------------
(***************************************************************************)
(* What is left of the specification when keys do not keep the laws: their  *)
(* equality, order, hash and scalar index may answer anything, differently  *)
(* each time, or panic.  Which entry a lookup finds is then open.  What is  *)
(* not open is that a collection only ever shows and hands over entries it  *)
(* holds, each once, that mutable accesses are to different entries, and    *)
(* that everything is destroyed once - whatever the keys do.                *)
(*                                                                         *)
(* Keys and values are identities here: every key instance and every value  *)
(* that is created has a number of its own (keys of string collections are  *)
(* numbered by their text).                                                *)
(***************************************************************************)
EXTENDS FrozenOps

VARIABLES coll,    \* handle -> [kind |-> "map" | "set", ent |-> sequence of <<key, value>>]
          slack    \* a panic went by: something may have been leaked (never destroyed twice)
wvars == <<coll, slack>>

Handles == DOMAIN coll
Ent(h)  == coll[h].ent
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
(* no element of s occurs in s more often than in t                          *)
Among(s, t) == IF Cardinality(Rng(s)) = Len(s) THEN Rng(s) \subseteq Rng(t)
               ELSE \A x \in Rng(s) : Count(s, x) <= Count(t, x)
SameBag(s, t) == Len(s) = Len(t) /\ Among(s, t)
(* what a view that shows keys, values or both shows of an entry             *)
Seen(w, e) == CASE w = "k" -> <<e[1]>> [] w = "v" -> <<e[2]>> [] OTHER -> e
View(w, s) == [i \in DOMAIN s |-> Seen(w, s[i])]
Panic(p) == slack' = (slack \/ p)

WInit == coll = <<>> /\ slack = FALSE
WReset == coll' = <<>> /\ slack' = FALSE

(* building keeps some of the entries given, or refuses, or is cut short     *)
WBuild(h, kind, en, kept, ok, p) ==
    /\ h \notin Handles
    /\ Among(kept, en)
    /\ p => ~ok
    /\ IF ok THEN coll' = (h :> [kind |-> kind, ent |-> kept]) @@ coll
       ELSE kept = <<>> /\ UNCHANGED coll
    /\ Panic(p)
WClone(h, g, p) ==
    /\ h \in Handles /\ g \notin Handles
    /\ IF p THEN UNCHANGED coll ELSE coll' = (g :> coll[h]) @@ coll
    /\ Panic(p)
WDrop(h, p) == /\ h \in Handles
               /\ coll' = [x \in Handles \ {h} |-> coll[x]]
               /\ Panic(p)

(* lookups: nothing, or something that is there                             *)
WGet(h, r, p) ==
    /\ \/ r = NONE
       \/ ~p /\ \E i \in DOMAIN Ent(h) : r = (IF coll[h].kind = "map" THEN Ent(h)[i][2] ELSE Ent(h)[i][1])
    /\ Panic(p) /\ UNCHANGED coll
WGkv(h, r, p) == /\ r = <<>> \/ (~p /\ Len(r) = 1 /\ r[1] \in Rng(Ent(h)))
                 /\ Panic(p) /\ UNCHANGED coll
WHas(h, p) == h \in Handles /\ Panic(p) /\ UNCHANGED coll
WLen(h, r) == r = Len(Ent(h)) /\ UNCHANGED wvars
WAll(h, w, r) == SameBag(r, View(w, Ent(h))) /\ UNCHANGED wvars

(* writing replaces the value found and no other                            *)
Written(s, old, new) == [i \in DOMAIN s |->
    IF \E j \in DOMAIN old : s[i][2] = old[j]
    THEN <<s[i][1], new[CHOOSE j \in DOMAIN old : s[i][2] = old[j]]>> ELSE s[i]]
WPut(h, v, r, p) ==
    /\ coll[h].kind = "map"
    /\ IF p \/ r = NONE THEN r = NONE /\ UNCHANGED coll
       ELSE /\ \E i \in DOMAIN Ent(h) : Ent(h)[i][2] = r
            /\ coll' = [coll EXCEPT ![h].ent = Written(@, <<r>>, <<v>>)]
    /\ Panic(p)
(* several at once: those found are different entries, and all are written   *)
WDis(h, v, r, p) ==
    /\ coll[h].kind = "map"
    /\ IF p THEN r = <<>> /\ UNCHANGED coll
       ELSE /\ Len(r) = Len(v)
            /\ \A i \in DOMAIN r : r[i] # NONE =>
                  /\ \E j \in DOMAIN Ent(h) : Ent(h)[j][2] = r[i]
                  /\ \A j \in DOMAIN r : j # i => r[j] # r[i]
            /\ coll' = [coll EXCEPT ![h].ent = Written(@, r, v)]
    /\ Panic(p)
(* a walk that replaces every value: <<old, new>>, each entry once           *)
WBump(h, r) ==
    /\ SameBag([i \in DOMAIN r |-> <<r[i][1]>>], View("v", Ent(h)))
    /\ coll' = [coll EXCEPT ![h].ent = Written(@, [i \in DOMAIN r |-> r[i][1]], [i \in DOMAIN r |-> r[i][2]])]
    /\ UNCHANGED slack

(* consuming: n entries are handed over, the others destroyed                *)
WTake(h, n, w, r, p) ==
    /\ h \in Handles
    /\ IF p THEN r = <<>> ELSE Len(r) = Min({n, Len(Ent(h))})
    /\ Among(r, View(w, Ent(h)))
    /\ coll' = [x \in Handles \ {h} |-> coll[x]]
    /\ Panic(p)

(* set operations show entries of the two sets, none more often than it is   *)
(* there - also when a panic went by and the walk went on after it           *)
WOp(h, g, op, r, p) ==
    /\ LET a == View("k", Ent(h))
           b == View("k", Ent(g))
       IN  Among(r, IF op \in {"diff", "minus"} THEN a ELSE a \o b)
    /\ Panic(p) /\ UNCHANGED coll

HeldOf(kinds) == MapThenSumSet(LAMBDA h : IF coll[h].kind \in kinds THEN Len(Ent(h)) ELSE 0, Handles)
(* values and keys alive are those held - or, after a panic, at least those  *)
WLive(v, k, tracked) ==
    /\ IF slack THEN v >= HeldOf({"map"}) ELSE v = HeldOf({"map"})
    /\ tracked => IF slack THEN k >= HeldOf({"map", "set"}) ELSE k = HeldOf({"map", "set"})
    /\ UNCHANGED wvars

(* ------------------------------ properties ------------------------------ *)
(* no value is at two places of a map: there is nothing for two accesses to share *)
NoSharing == \A h \in Handles : coll[h].kind = "map" =>
                Cardinality({Ent(h)[i][2] : i \in DOMAIN Ent(h)}) = Len(Ent(h))
(* whatever the keys answer, a collection never gains, loses or renames keys  *)
KeysStay == [][\A h \in Handles \cap DOMAIN coll' : coll'[h].kind = coll[h].kind
                  /\ [i \in DOMAIN Ent(h) |-> Ent(h)[i][1]] = [i \in DOMAIN coll'[h].ent |-> coll'[h].ent[i][1]]]_wvars
=============================================================================
