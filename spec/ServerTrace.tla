----------------------------- MODULE ServerTrace ----------------------------
(* Recorded requests to the real server, with their answers, checked against *)
(* Server: every request takes effect between its sending and its answer.    *)
EXTENDS Server, Json, IOUtils
VARIABLES tr, l,
  called,  \* <<event, the store has been what will be backed up since, if it is about snapshots>> of the requests that have not taken effect yet
  done     \* <<event, Len(hist)>> of those that did, and have not been answered
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
ASSUME \A k \in 1..N : TLCSet(k, 0)
tvars == <<vars, xvars, tr, l, called, done>>
\* what matters of the past: the values of each lump since a position (0: absent), with the
\* new ones marked
Used == UNION {DOMAIN hist[k] : k \in DOMAIN hist}
Val(k, i) == IF i \in DOMAIN hist[k] THEN <<c[hist[k][i]], New(hist[k][i])>> ELSE <<>>
Past(p) == [i \in Used |-> {Val(k, i) : k \in p..Len(hist)}]
View == <<tr, l, called, {<<p[1], IF p[2] > du THEN Past(p[2]) ELSE <<>>>> : p \in done}, Past(du), sn>>

TInit == /\ \E k \in 1..N : tr = k /\ Init(Traces[k].cfg)
         /\ l = 1 /\ called = {} /\ done = {} /\ XInit
Evs == Traces[tr].ev
Ev == Evs[l]
Phase == IF "ph" \in DOMAIN Ev THEN Ev.ph ELSE "seq"
Acked(e) == e.e \in {"hput", "hputa"} /\ e.r = "200"

\* the store is what the next backup holds
NextBackup == LET S == {k \in l..Len(Evs) : Evs[k].e = "backup"} IN IF S = {} THEN 0 ELSE MinOf(S)
Now == NextBackup > 0 /\ Looks(Evs[NextBackup], hist[Len(hist)], c)
Then == NextBackup > 0 /\ Looks(Evs[NextBackup], hist'[Len(hist')], c')
Call == Phase = "call" /\ called' = called \cup {<<l, Ev.e \in Snaps /\ Now>>} /\ l' = l + 1 /\ UNCHANGED <<vars, xvars, done>>
Return ==
  /\ Phase = "ret"
  /\ \E p \in done :
       /\ p[1] = Ev.q /\ done' = done \ {p} /\ l' = l + 1
       /\ du' = (IF Acked(Evs[Ev.q]) /\ p[2] > du THEN p[2] ELSE du)
       /\ UNCHANGED <<vars, sn, called>>
\* what is answered now, or what was before, needs it
TakeEffect(p) ==
  /\ \/ Phase = "ret" /\ \A x \in done : x[1] # Ev.q
     \/ Phase = "seq" /\ Ev.e = "backup"
  /\ l' = l
  /\ \/ Evs[p[1]].e \in Snaps /\ Snap(Evs[p[1]], p[2]) /\ UNCHANGED <<vars, du>> /\ called' = called \ {p}
     \/ /\ Evs[p[1]].e \notin Snaps /\ Serve(Evs[p[1]]) /\ UNCHANGED du
        /\ LET new == hist' # hist /\ Then IN
             /\ Watch(new)
             /\ called' = {<<x[1], x[2] \/ (new /\ Evs[x[1]].e \in Snaps)>> : x \in called \ {p}}
  /\ done' = done \cup {<<p[1], Len(hist')>>}
Pending == {Evs[p[1]] : p \in called}
Alone ==
  /\ Phase = "seq" /\ l' = l + 1 /\ UNCHANGED <<called, done>>
  /\ CASE Ev.e = "start" -> UNCHANGED <<vars, xvars>>
       [] Ev.e = "fill" -> Upload(Ev.i, Ev.t, Ev.n) /\ du' = Len(hist') /\ UNCHANGED sn
       [] Ev.e = "usage" -> called = {} /\ done = {} /\ Ev.r = "200" /\ B(Ev.n = Cardinality(Ids) /\ Ev.fr = FreeBlocks) /\ UNCHANGED <<vars, xvars>>
       [] Ev.e = "safe" -> Ev.r = "ok" /\ B(SafeOk(Ev.d, Ev.cnt, Pending)) /\ UNCHANGED <<vars, xvars>>
       [] Ev.e = "backup" -> Ev.r = "ok" /\ B(sn # <<>> /\ sn[1].good) /\ sn' = <<>> /\ UNCHANGED <<vars, du>>
       [] Ev.e = "stopped" -> called = {} /\ done = {} /\ Ev.r = "ok" /\ B(DumpOk(Ev.d, Ev.cnt)) /\ UNCHANGED <<vars, xvars>>
       [] OTHER -> FALSE

\* nothing more to do for a trace that is explained
Progress == TLCGet(tr) <= Len(Traces[tr].ev) /\ (IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE)
TNext == /\ l <= Len(Evs) /\ ~Broken(Ev) /\ tr' = tr
         /\ Call \/ Return \/ Alone \/ \E p \in called : TakeEffect(p)
TSpec == TInit /\ [][TNext]_tvars
Rejected == {k \in 1..N : TLCGet(k) <= Len(Traces[k].ev)}
Accepted == \A k \in Rejected : PrintT(<<"REJECTED", Traces[k].id, TLCGet(k)>>)
=============================================================================
