----------------------------- MODULE WildTrace ------------------------------
(* Validates recordings of the Rust code, run with keys that keep no laws,   *)
(* against Wild.                                                            *)
EXTENDS Wild, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TraceInit == WInit /\ l = 1

IsStep ==
    CASE Ev.e = "reset" -> WReset
      [] Ev.e = "build" -> WBuild(Ev.h, Ev.kind, Ev.en, Ev.kept, Ev.ok, Ev.p)
      [] Ev.e = "clone" -> WClone(Ev.h, Ev.g, Ev.p)
      [] Ev.e = "drop"  -> WDrop(Ev.h, Ev.p)
      [] Ev.e = "get"   -> WGet(Ev.h, Ev.r, Ev.p)
      [] Ev.e = "gkv"   -> WGkv(Ev.h, Ev.r, Ev.p)
      [] Ev.e = "has"   -> WHas(Ev.h, Ev.p)
      [] Ev.e = "len"   -> WLen(Ev.h, Ev.r)
      [] Ev.e = "all"   -> WAll(Ev.h, Ev.w, Ev.r)
      [] Ev.e = "put"   -> WPut(Ev.h, Ev.v, Ev.r, Ev.p)
      [] Ev.e = "dis"   -> WDis(Ev.h, Ev.v, Ev.r, Ev.p)
      [] Ev.e = "bump"  -> WBump(Ev.h, Ev.r)
      [] Ev.e = "take"  -> WTake(Ev.h, Ev.n, Ev.w, Ev.r, Ev.p)
      [] Ev.e = "op"    -> WOp(Ev.h, Ev.g, Ev.op, Ev.r, Ev.p)
      [] Ev.e = "live"  -> WLive(Ev.v, Ev.k, Ev.keys)
      [] OTHER -> FALSE

TraceNext == l <= Len(Trace) /\ IsStep /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<wvars, l>>
TraceAccepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace)
    THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
    ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
=============================================================================
