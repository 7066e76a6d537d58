---------------------------- MODULE HandlesTrace ----------------------------
(* Recorded opens, creates and closes of the real code against Handles; the  *)
(* concurrent ones need an order that explains them (see ConcTrace).         *)
EXTENDS Handles, Json, IOUtils, TLC
VARIABLES tr, l, called, done
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
ASSUME \A k \in 1..N : TLCSet(k, 0)
tvars == <<hvars, tr, l, called, done>>
TInit == /\ \E k \in 1..N : tr = k /\ HInit(Traces[k].cfg.files)
         /\ l = 1 /\ called = {} /\ done = {}
Evs == Traces[tr].ev
Ev == Evs[l]
Phase == IF "ph" \in DOMAIN Ev THEN Ev.ph ELSE "seq"

\* a call q whose file another call had open for a moment, before it failed
Disturbed(q) == /\ Evs[q].r = "locked" /\ UNCHANGED hvars
                /\ \E p \in (called \cup done) \ {q} : Evs[p].e \in {"create", "open", "grow", "close"} /\ Evs[p].f = Evs[q].f

Effect(e) ==
  \/ e.e = "create" /\ Create(e.f, e.good, e.flt, e.h, e.c, e.r)
  \/ e.e = "open" /\ Open(e.f, e.flt, e.h, e.v, e.c, e.r)
  \/ e.e = "xopen" /\ OpenClose(e.f, e.v, e.c, e.r)
  \/ e.e = "close" /\ Close(e.f, e.h, e.r)
  \/ e.e = "again" /\ CloseAgain(e.r)
  \/ e.e = "kill" /\ Kill(e.f, e.h, e.r)
  \/ e.e = "put" /\ Put(e.f, e.h, e.t, e.r)
  \/ e.e = "grow" /\ Grow(e.f, e.c, e.r)
  \/ e.e = "alter" /\ Alter(e.f, e.k, e.v, e.c)
  \/ e.e = "look" /\ Look(e.fs, e.x)

Call == Phase = "call" /\ called' = called \cup {l} /\ l' = l + 1 /\ UNCHANGED <<hvars, done>>
Return == Phase = "ret" /\ Ev.q \in done /\ done' = done \ {Ev.q} /\ l' = l + 1 /\ UNCHANGED <<hvars, called>>
TakeEffect(q) == /\ Phase = "ret" /\ Ev.q \notin done
                 /\ Effect(Evs[q]) \/ Disturbed(q)
                 /\ called' = called \ {q} /\ done' = done \cup {q} /\ l' = l
Alone == Phase = "seq" /\ called = {} /\ done = {} /\ Effect(Ev) /\ l' = l + 1 /\ UNCHANGED <<called, done>>

\* nothing more to do for a trace that is explained
Progress == TLCGet(tr) <= Len(Traces[tr].ev) /\ (IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE)
TNext == l <= Len(Evs) /\ tr' = tr /\ (Call \/ Return \/ Alone \/ \E q \in called : TakeEffect(q))
TSpec == TInit /\ [][TNext]_tvars
\* at most one owner is a fact of the type of own; a file that is not there has none
Sound == \A f \in Files : own[f] # 0 => kind[f] # "none"
Rejected == {k \in 1..N : TLCGet(k) <= Len(Traces[k].ev)}
Accepted == \A k \in Rejected : PrintT(<<"REJECTED", Traces[k].id, TLCGet(k)>>)
=============================================================================
