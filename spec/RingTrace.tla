----------------------------- MODULE RingTrace ------------------------------
(* recorded calls of the real ring, with the device after each, against Ring *)
EXTENDS Ring, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
ASSUME \A k \in 1..N : TLCSet(k, 0)
TInit == (\E k \in 1..N : tr = k /\ RInit(Traces[k].cfg.cap, Traces[k].cfg.head)) /\ l = 1
Ev == Traces[tr].ev[l]
Is(e) == Ev.e = e
Act ==
  \/ Is("start") /\ Ev.r = "ok" /\ UNCHANGED rvars
  \/ Is("enq") /\ Enqueue(Ev.r, Ev.z, Ev.h, Ev.t, Ev.jp, Ev.jl, Ev.k = "emb") /\ (Ev.r = "ok" => Ev.u = Usage')
  \/ Is("pop") /\ Pop(Ev.r, Ev.n, Ev.l, Ev.hd)
  \/ Is("rel") /\ Release(Ev.n, Ev.p) /\ Ev.u = Usage'
  \/ Is("flush") /\ Flush(Ev.r)
  \/ Is("iter") /\ Iter(Ev.r, Ev.l)
  \/ Is("get") /\ Get(Ev.r, Ev.p, Ev.h)
  \/ Is("reopen") /\ Reopen(Ev.r, Ev.l, Ev.t) /\ Ev.u = Usage'
  \/ Is("dev") /\ Device(Ev.l)
\* nothing more to do for a trace that is explained
Progress == TLCGet(tr) <= Len(Traces[tr].ev) /\ (IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE)
TNext == l <= Len(Traces[tr].ev) /\ Act /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_<<rvars, tr, l>>
Rejected == {k \in 1..N : TLCGet(k) <= Len(Traces[k].ev)}
Accepted == \A k \in Rejected : PrintT(<<"REJECTED", Traces[k].id, TLCGet(k)>>)
Sound == Disjoint /\ Inside
=============================================================================
