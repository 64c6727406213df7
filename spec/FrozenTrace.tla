---------------------------- MODULE FrozenTrace ----------------------------
(***************************************************************************)
(* Validates a recorded execution of the Rust code (one JSON object per     *)
(* line, written by /verif/harness) against Frozen: every line has to be a  *)
(* step of the specification with exactly the recorded arguments/results.   *)
(***************************************************************************)
EXTENDS Frozen, Json, IOUtils
P == INSTANCE Programs

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Fld(f, d) == IF f \in DOMAIN Ev THEN Ev[f] ELSE d

TraceInit == Init /\ l = 1

(* a session starts from the empty state                                    *)
Reset == coll' = <<>> /\ iter' = <<>> /\ made' = 0 /\ gone' = 0

(* scalar index embedding: keys were given in ascending order, idx are       *)
(* 4 limbs of 16 bits (most significant first), succ[i]: key i+1 is the      *)
(* successor of key i in the type                                           *)
LimbLt(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
LimbInc(a) ==
    CASE a[4] < 65535 -> <<a[1], a[2], a[3], a[4] + 1>>
      [] a[4] = 65535 /\ a[3] < 65535 -> <<a[1], a[2], a[3] + 1, 0>>
      [] a[4] = 65535 /\ a[3] = 65535 /\ a[2] < 65535 -> <<a[1], a[2] + 1, 0, 0>>
      [] OTHER -> <<a[1] + 1, 0, 0, 0>>
IndexEmbedding(idx, succ, zero) ==
    /\ zero => (Len(idx) > 0 /\ idx[1] = <<0, 0, 0, 0>>)
    /\ \A i \in 1..(Len(idx) - 1) :
          /\ LimbLt(idx[i], idx[i + 1])
          /\ succ[i] => idx[i + 1] = LimbInc(idx[i])
    /\ UNCHANGED vars

IsStep ==
    CASE Ev.e = "reset" -> Reset
      [] Ev.e = "build" -> Ev.p = FALSE /\ Build(Ev.h, Ev.kind, Ev.en)
      [] Ev.e = "bseg"  -> Ev.p = FALSE /\ BuildC(Ev.h, Ev.kind, SegsContent(Ev.kind, Ev.sg), Ev.n)
      [] Ev.e = "blim"  -> BuildLimited(Ev.h, Ev.kind, Ev.en, Ev.cap, Ev.dense, Ev.ok)
      [] Ev.e = "bslim" -> BuildLimitedC(Ev.h, Ev.kind, SegsContent(Ev.kind, Ev.sg), Ev.n, Ev.cap, Ev.ok)
      [] Ev.e = "accept" -> Ev.ok = Ev.want /\ UNCHANGED vars
      [] Ev.e = "program" -> Ev.ok = P!Compiles(Ev.d, Ev.api) /\ UNCHANGED vars
      [] Ev.e = "macro" -> Ev.ok = P!MacroAccepts(Ev.fam, Ev.form, Ev.ks) /\ UNCHANGED vars
      [] Ev.e = "derive" -> Ev.ok = P!DeriveAccepts(Ev.item, Ev.vs) /\ UNCHANGED vars
      [] Ev.e = "emitopt" -> Ev.ok = P!EmitAccepts(Ev.static, Ev.mutable, Ev.hassym, Ev.hasali) /\ UNCHANGED vars
      [] Ev.e = "clone" -> CloneColl(Ev.h, Ev.g)
      [] Ev.e = "rt"    -> CloneColl(Ev.h, Ev.g)
      [] Ev.e = "drop"  -> DropColl(Ev.h)
      [] Ev.e = "get"   -> Get(Ev.h, Ev.q, Ev.r)
      [] Ev.e = "has"   -> HasQ(Ev.h, Ev.q, Ev.r)
      [] Ev.e = "gkv"   -> Gkv(Ev.h, Ev.q, Ev.r)
      [] Ev.e = "idx"   -> Idx(Ev.h, Ev.k, Ev.r)
      [] Ev.e = "len"   -> LenQ(Ev.h, Ev.r, Ev.em)
      [] Ev.e = "all"   -> IF Ev.how \in {"dbg", "json"} THEN AllQ(Ev.h, Ev.w, Ev.r) ELSE WalkQ(Ev.h, Ev.w, Ev.r)
      [] Ev.e = "scan"  -> ScanQ(Ev.h, Ev.w, Ev.sg, Ev.n)
      [] Ev.e = "set"   -> SetVal(Ev.h, Ev.k, Ev.v, Ev.r)
      [] Ev.e = "bump"  -> Bump(Ev.h, Ev.d, Ev.n)
      [] Ev.e = "dis"   -> Disjoint(Ev.h, Ev.q, Ev.w, Ev.r, Ev.p)
      [] Ev.e = "zmap"  -> ZeroSized(Ev.en, Ev.q, Ev.n, Ev.all, Ev.r, Ev.p)
      [] Ev.e = "eq"    -> Eq(Ev.h, Ev.g, Ev.r)
      [] Ev.e = "rel"   -> RelQ(Ev.op, Ev.h, Ev.g, Ev.r)
      [] Ev.e = "sop"   -> SetOpQ(Ev.op, Ev.h, Ev.g, Ev.r)
      [] Ev.e = "sopscan" -> SetOpScan(Ev.op, Ev.h, Ev.g, Ev.sg, Ev.n)
      [] Ev.e = "open"  -> OpenIter(Ev.i, Ev.h, Ev.w, Ev.src)
      [] Ev.e = "openop" -> OpenOp(Ev.i, Ev.op, Ev.h, Ev.g)
      [] Ev.e = "next"  -> Next1(Ev.i, Ev.r, Ev.nv)
      [] Ev.e = "nth"   -> Nth(Ev.i, Ev.n, Ev.r)
      [] Ev.e = "size"  -> SizeHint(Ev.i, Ev.lo, Ev.hi)
      [] Ev.e = "peek"  -> PeekIter(Ev.i, Ev.w, Ev.r)
      [] Ev.e = "icl"   -> CloneIter(Ev.i, Ev.j)
      [] Ev.e = "rest"  -> Rest(Ev.i, Ev.r)
      [] Ev.e = "last"  -> LastRest(Ev.i, Ev.r)
      [] Ev.e = "cnt"   -> CountRest(Ev.i, Ev.r)
      [] Ev.e = "close" -> CloseIter(Ev.i)
      [] Ev.e = "live"  -> Live(Ev.r)
      [] Ev.e = "lenof" -> LenOf(Ev.n, Ev.r, Ev.em)
      [] Ev.e = "sidx"  -> IndexEmbedding(Ev.r, Ev.succ, Ev.zero)
      [] OTHER -> FALSE

TraceNext == l <= Len(Trace) /\ IsStep /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>

(* accepted: some behaviour of the specification matches every line          *)
TraceAccepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace)
    THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
    ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
=============================================================================
