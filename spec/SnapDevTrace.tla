---------------------------- MODULE SnapDevTrace ----------------------------
(* recorded operations of the real device with snapshots *)
EXTENDS SnapDev, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
ASSUME \A k \in 1..N : TLCSet(k, 0)
TInit == (\E k \in 1..N : tr = k /\ SInit(Traces[k].cfg.cap)) /\ l = 1
Ev == Traces[tr].ev[l]
Is(e) == Ev.e = e
Act == Ev.r \notin {"panic", "hang", "died"} /\
  \/ Is("start") /\ Ev.r = "ok" /\ UNCHANGED svars
  \/ Is("write") /\ Write(Ev.r, Ev.s, Ev.n, Ev.t)
  \/ Is("snapc") /\ Create(Ev.r)
  \/ Is("snapd") /\ Delete(Ev.r)
  \/ Is("read") /\ Read(Ev.r, Ev.s, Ev.n, Ev.sg)
  \/ Is("reopen") /\ Reopen(Ev.r)
  \/ Is("crash") /\ Crash(Ev.r)
  \/ Is("look") /\ Look(Ev.sg, Ev.files)
  \/ Is("probe") /\ Probe(Ev.r, Ev.sg, Ev.has, Ev.s1, Ev.s2)
Progress == TLCGet(tr) <= Len(Traces[tr].ev) /\ (IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE)
TNext == l <= Len(Traces[tr].ev) /\ Act /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_<<svars, tr, l>>
Rejected == {k \in 1..N : TLCGet(k) <= Len(Traces[k].ev)}
Accepted == \A k \in Rejected : PrintT(<<"REJECTED", Traces[k].id, TLCGet(k)>>)
=============================================================================
