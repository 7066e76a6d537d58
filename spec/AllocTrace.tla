----------------------------- MODULE AllocTrace -----------------------------
(* recorded calls of the real allocators against Alloc                      *)
EXTENDS Alloc, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
ASSUME \A k \in 1..N : TLCSet(k, 0)
TInit == (\E k \in 1..N : tr = k /\ AInit(Traces[k].cfg.cap)) /\ l = 1
Ev == Traces[tr].ev[l]
Is(e) == Ev.e = e
B(x) == x = TRUE
Ok == Ev.r = "ok"
Same == UNCHANGED avars
Act ==
  \/ Is("start") /\ Ok /\ Same
  \/ Is("alloc") /\ Allocate(Ev.n, Ev.r, Ev.s, Ev.len)
  \/ Is("rel") /\ Release(Ev.s, Ev.n, Ev.r)
  \/ Is("q") /\ Ok /\ B(FreeOk(Ev.fr)) /\ B(MaxOk(Ev.mx)) /\ Same
  \/ Is("rebuild") /\ Ok /\ Same
  \/ Is("bits") /\ Ok /\ B(BitsOk(Ev.n, Ev.l)) /\ Same
\* nothing more to do for a trace that is explained
Progress == TLCGet(tr) <= Len(Traces[tr].ev) /\ (IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE)
TNext == l <= Len(Traces[tr].ev) /\ Act /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_<<avars, tr, l>>
Sound == Ordered /\ Inside
Rejected == {k \in 1..N : TLCGet(k) <= Len(Traces[k].ev)}
Accepted == \A k \in Rejected : PrintT(<<"REJECTED", Traces[k].id, TLCGet(k)>>)
=============================================================================
