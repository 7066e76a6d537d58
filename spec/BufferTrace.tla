---------------------------- MODULE BufferTrace -----------------------------
(* recorded calls of the real write buffer, with the device after each      *)
EXTENDS Buffer, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
ASSUME \A k \in 1..N : TLCSet(k, 0)
TInit == (\E k \in 1..N : tr = k /\ BInit(Traces[k].cfg.cap, Traces[k].cfg.cuts)) /\ l = 1
Ev == Traces[tr].ev[l]
Is(e) == Ev.e = e
Act ==
  \/ Is("start") /\ Ev.r = "ok" /\ UNCHANGED bvars
  \/ Is("seek") /\ Seek(Ev.r, Ev.to, Ev.p, Ev.pos)
  \/ Is("read") /\ Read(Ev.r, Ev.n, Ev.c, Ev.over, Ev.sg, Ev.pos)
  \/ Is("write") /\ Write(Ev.r, Ev.n, Ev.c, Ev.t, Ev.pos)
  \/ (Is("flush") \/ Is("sync")) /\ Flush(Ev.r)
  \/ Is("reopen") /\ Reopen(Ev.r)
  \/ Is("dev") /\ Device(Ev.sg)
\* nothing more to do for a trace that is explained
Progress == TLCGet(tr) <= Len(Traces[tr].ev) /\ (IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE)
TNext == l <= Len(Traces[tr].ev) /\ Act /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_<<bvars, tr, l>>
Rejected == {k \in 1..N : TLCGet(k) <= Len(Traces[k].ev)}
Accepted == \A k \in Rejected : PrintT(<<"REJECTED", Traces[k].id, TLCGet(k)>>)
Sound == \A k \in Segs : val[k] \in may[k]
=============================================================================
