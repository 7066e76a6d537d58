----------------------------- MODULE ConcTrace ------------------------------
(* Recorded executions with concurrent operations: a trace is accepted if    *)
(* every operation can be made to take effect between its call and its       *)
(* return such that Store explains all results.  Operations take effect only *)
(* just before a return that needs one, which loses no order.                *)
EXTENDS Snapshot, Json, IOUtils
VARIABLES tr, l,
  called,  \* events (calls) that have not taken effect yet
  done     \* events (calls) that took effect and have not returned
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
ASSUME \A k \in 1..N : TLCSet(k, 0)
tvars == <<vars, svars, tr, l, called, done>>
View == <<tr, l, called, done, svars, open, [i \in Ids |-> Obj(i)]>>

TInit == /\ \E k \in 1..N : tr = k /\ Init(Traces[k].cfg)
         /\ l = 1 /\ called = {} /\ done = {} /\ SInit
Evs == Traces[tr].ev
Ev == Evs[l]
Phase == IF "ph" \in DOMAIN Ev THEN Ev.ph ELSE "seq"

Effect(e) ==
  \/ SnapAct(e)
  \/ e.e = "probe" /\ Act(e) /\ ("sh" \in DOMAIN e => B(FoundOk(e.sh, e.mid))) /\ UNCHANGED svars
  \/ e.e \notin SnapOps \cup {"probe"} /\ Act(e) /\ SSame
  \/ ActClosed(e) /\ SSame
\* the counts of usage belong to different moments; what a sync makes durable is not judged here
Linear(e) == IF e.e \in {"usage", "sync", "flush"} THEN e.r = "ok" /\ Nop /\ SSame ELSE Effect(e)

Call == Phase = "call" /\ called' = called \cup {l} /\ l' = l + 1 /\ UNCHANGED <<vars, svars, done>>
Return == Phase = "ret" /\ Ev.q \in done /\ done' = done \ {Ev.q} /\ l' = l + 1 /\ UNCHANGED <<vars, svars, called>>
TakeEffect(q) ==
  /\ Phase = "ret" /\ Ev.q \notin done
  /\ Linear(Evs[q]) /\ called' = called \ {q} /\ done' = done \cup {q} /\ l' = l
Alone == /\ Phase = "seq" /\ called = {} /\ done = {} /\ l' = l + 1 /\ UNCHANGED <<called, done>>
       /\ IF Ev.e = "quiet" THEN ~open /\ Ev.n = 0 /\ UNCHANGED <<vars, svars>> ELSE Effect(Ev)

\* nothing more to do for a trace that is explained
Progress == TLCGet(tr) <= Len(Traces[tr].ev) /\ (IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE)
TNext == /\ l <= Len(Evs) /\ ~Broken(Ev) /\ tr' = tr
         /\ Call \/ Return \/ Alone \/ \E q \in called : TakeEffect(q)
TSpec == TInit /\ [][TNext]_tvars
Rejected == {k \in 1..N : TLCGet(k) <= Len(Traces[k].ev)}
Accepted == \A k \in Rejected : PrintT(<<"REJECTED", Traces[k].id, TLCGet(k)>>)
=============================================================================
