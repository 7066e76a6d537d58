------------------------------ MODULE StoreAct ------------------------------
(* Recorded operations (records with the arguments and the result) as       *)
(* actions of Store.                                                         *)
EXTENDS Store
B(x) == x = TRUE   \* evaluate as a value, without branching

\* the process died in an operation because of an injected device error
FailStop(Ev) ==
  /\ Ev.r = "failstop" /\ Ev.flt
  /\ \/ Nop
     \/ Ev.e = "put" /\ Put(Ev.i, Fill(Ev.t, Ev.n), Ev.n, "ok", Ev.i \in Ids, Ev.flt)
     \/ Ev.e = "pute" /\ PutEmbed(Ev.i, Fill(Ev.t, Ev.n), Ev.n, "ok", Ev.i \in Ids, Ev.flt)
     \/ Ev.e = "puto" /\ PutOffset(Ev.i, Ev.t, Ev.s, Ev.n, Ev.rv, "ok", Ev.flt)
     \/ Ev.e = "del" /\ Ev.i \in Ids /\ NoNew /\ Become(RemoveMaps({Ev.i}))
     \/ Ev.e = "delr" /\ DeleteRange(Ev.a, Ev.b, "ok", Ev.flt)

Act(Ev) ==
  CASE Ev.r = "failstop" -> FailStop(Ev)
    [] Ev.e = "start" -> Nop
    [] Ev.e = "create" -> B(CreateOk(Ev.r)) /\ Nop
    [] Ev.e = "put" -> Put(Ev.i, Fill(Ev.t, Ev.n), Ev.n, Ev.r, Ev.up, Ev.flt)
    [] Ev.e = "pute" -> PutEmbed(Ev.i, Fill(Ev.t, Ev.n), Ev.n, Ev.r, Ev.up, Ev.flt)
    [] Ev.e = "burst" -> Burst(Ev.i, Fill(Ev.t, Ev.n), Ev.n, Ev.r, Ev.up, Ev.done, Ev.flt)
    [] Ev.e = "cycle" -> Cycle(Ev.i, Fill(Ev.t, Ev.n), Ev.n, Ev.r, Ev.up, Ev.done, Ev.there, Ev.flt)
    [] Ev.e = "puto" -> PutOffset(Ev.i, Ev.t, Ev.s, Ev.n, Ev.rv, Ev.r, Ev.flt)
    [] Ev.e = "del" -> Delete(Ev.i, Ev.r, Ev.up, Ev.sz, Ev.flt)
    [] Ev.e = "delr" -> DeleteRange(Ev.a, Ev.b, Ev.r, Ev.flt)
    [] Ev.e = "get" -> open /\ B(GetOk(Ev.i, Ev.r, Ev.n, Ev.sg, Ev.flt)) /\ Nop
    [] Ev.e = "geto" -> open /\ B(GetOffsetOk(Ev.i, Ev.s, Ev.l, Ev.r, Ev.n, Ev.sg, Ev.flt)) /\ Nop
    [] Ev.e = "size" -> open /\ B(SizeOk(Ev.i, Ev.r, Ev.n, Ev.flt)) /\ Nop
    [] Ev.e = "sod" -> open /\ B(SizeOnDiskOk(Ev.i, Ev.r, Ev.n)) /\ Nop
    [] Ev.e = "list" -> open /\ B(ListOk(Ev.l)) /\ Nop
    [] Ev.e = "listr" -> open /\ B(ListRangeOk(Ev.a, Ev.b, Ev.n, Ev.l)) /\ Nop
    [] Ev.e = "min" -> open /\ B(MinOk(Ev.i, Ev.ok)) /\ Nop
    [] Ev.e = "max" -> open /\ B(MaxOk(Ev.i, Ev.ok)) /\ Nop
    [] Ev.e = "first" -> open /\ B(FirstOk(Ev.a, Ev.r, Ev.i)) /\ Nop
    [] Ev.e = "gen" -> open /\ B(GenOk(Ev.i, Ev.ok)) /\ Nop
    [] Ev.e = "usage" -> open /\ Ev.r = "ok" /\ B(UsageOk(Ev)) /\ B(MaxSegOk(Ev.ms)) /\ Nop
    [] Ev.e = "emptyusage" -> Ev.r = "ok" /\ Ids = {} /\ Ev.n = 0 /\ Ev.ju = 0 /\ Nop
    [] Ev.e = "own" -> open /\ Ev.r = "ok" /\ Own(Ev.p)
    [] Ev.e = "flush" -> open /\ Ev.r = "ok" /\ Flush(Ev.flt)
    [] Ev.e = "sync" -> open /\ Ev.r = "ok" /\ Sync
    [] Ev.e = "autosync" -> AutoSync
    [] Ev.e = "gc" -> open /\ Ev.r = "ok" /\ Nop
    [] Ev.e = "side" -> open /\ Ev.r = "ok" /\ Nop
    [] Ev.e = "journal" -> open /\ Ev.r = "ok" /\ Nop
    [] Ev.e = "auto" -> Ev.r = "ok" /\ SetAuto(Ev.on)
    [] Ev.e = "close" -> Ev.r = "ok" /\ (Close \/ (~open /\ Nop))
    [] Ev.e = "open" -> Open(Ev.r)
    [] Ev.e = "dump" -> open /\ Ev.r = "ok" /\ B(DumpOk(Ev.d, Ev.cnt)) /\ Nop
    [] Ev.e = "probe" -> Ev.r = "ok" /\ (IF Ev.k = "kill" THEN B(KillOk(Ev.d, Ev.cnt, Ev.mid)) ELSE B(PowerOk(Ev.d, Ev.cnt, Ev.mid))) /\ UNCHANGED vars
    [] Ev.e = "spoil" -> B(SpoilOk(Ev.k, Ev.r, Ev.d, Ev.cnt)) /\ UNCHANGED vars
    [] Ev.e = "crash" -> Ev.r = "ok" /\ (IF Ev.k = "kill" THEN Kill(Ev.d, Ev.cnt) ELSE PowerLoss(Ev.d, Ev.cnt))
    [] Ev.e = "writes" -> Ev.r = "ok" /\ B(WritesOk(Ev.o, Ev.i, Ev.w)) /\ UNCHANGED vars
    [] Ev.e = "ring" -> Ev.r = "ok" /\ Ring(Ev.k, Ev.l)
    [] OTHER -> FALSE

\* operations on a closed store fail or report nothing
ClosedOk(Ev) ==
  CASE Ev.e \in {"put", "pute", "puto", "del", "delr", "get", "geto", "size", "sod", "first", "snapc", "snapd", "snapr"} -> Ev.r = "closed"
    [] Ev.e \in {"list", "listr"} -> Ev.l = <<>>
    [] Ev.e \in {"min", "max", "gen"} -> Ev.ok = FALSE
    [] Ev.e = "journal" -> Ev.n = 0
    [] Ev.e \in {"sync", "flush", "side", "gc", "usage", "alloc"} -> Ev.r = "ok"
    [] OTHER -> FALSE
ActClosed(Ev) == ~open /\ B(ClosedOk(Ev)) /\ Nop

Broken(Ev) == Ev.r \in {"panic", "hang", "died", "badop"}
=============================================================================
