------------------------------ MODULE NvmTrace ------------------------------
(* recorded calls of the real devices and their views *)
EXTENDS Nvm, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
ASSUME \A k \in 1..N : TLCSet(k, 0)
TInit == (\E k \in 1..N : tr = k /\ NInit(Traces[k].cfg.size, Traces[k].cfg.first, Traces[k].cfg.cap)) /\ l = 1
Ev == Traces[tr].ev[l]
Is(e) == Ev.e = e
\* nothing may panic, or hang
Act == Ev.r \notin {"panic", "hang"} /\
  \/ Is("start") /\ Ev.r = "ok" /\ UNCHANGED nvars
  \/ Is("seek") /\ Seek(Ev.v, Ev.r, Ev.off, Ev.wh, Ev.ret, Ev.q)
  \/ Is("read") /\ Read(Ev.v, Ev.r, Ev.n, Ev.c, Ev.sg, Ev.q)
  \/ Is("readat") /\ ReadAt(Ev.v, Ev.r, Ev.off, Ev.n, Ev.c, Ev.sg, Ev.q)
  \/ Is("write") /\ Write(Ev.v, Ev.r, Ev.n, Ev.c, Ev.t, Ev.q)
  \/ Is("writeat") /\ WriteAt(Ev.v, Ev.r, Ev.off, Ev.n, Ev.c, Ev.t, Ev.q)
  \/ Is("split") /\ Split(Ev.v, Ev.r, Ev.off, Ev.lc, Ev.rc, Ev.q)
  \/ Is("sync") /\ Ev.r = "ok" /\ Keep(Ev.v, Ev.q)
  \/ Is("closeview") /\ Keep(Ev.v, Ev.q)
  \/ Is("dev") /\ Device(Ev.sg)
  \/ Is("look") /\ Look(Ev.ps, Ev.cs)
\* nothing more to do for a trace that is explained
Progress == TLCGet(tr) <= Len(Traces[tr].ev) /\ (IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE)
TNext == l <= Len(Traces[tr].ev) /\ Act /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_<<nvars, tr, l>>
Rejected == {k \in 1..N : TLCGet(k) <= Len(Traces[k].ev)}
Accepted == \A k \in Rejected : PrintT(<<"REJECTED", Traces[k].id, TLCGet(k)>>)
\* views that are not split from each other have no sector in common: of those
\* at hand, any two are disjoint or one contains the other
Apart == \A i, j \in DOMAIN views :
           LET x == views[i] y == views[j] IN
           \/ x.a + (x.n \div S) <= y.a \/ y.a + (y.n \div S) <= x.a
           \/ (x.a <= y.a /\ y.a + (y.n \div S) <= x.a + (x.n \div S))
           \/ (y.a <= x.a /\ x.a + (x.n \div S) <= y.a + (y.n \div S))
Inside == \A i \in DOMAIN views : views[i].p >= 0 /\ views[i].p <= views[i].n /\ views[i].a + (views[i].n \div S) <= Len(dev)
=============================================================================
