---------------------------- MODULE RecordTrace -----------------------------
(* records that the real code wrote and bytes that it read, against Record  *)
EXTENDS Record, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
ASSUME \A k \in 1..N : TLCSet(k, 0)
TInit == tr \in 1..N /\ l = 1
Ev == Traces[tr].ev[l]
Is(e) == Ev.e = e
B(x) == x = TRUE
Act ==
  \/ Is("start") /\ Ev.r = "ok"
  \/ Is("write") /\ Ev.r = "ok" /\ Ev.b = Write(Ev.tag, Ev.body) /\ Ev.z = Len(Ev.b)
                 /\ Read(Ev.b) = <<Ev.tag>> \o Ev.body
  \/ Is("read") /\ LET x == Read(Ev.in) IN
                   IF x = <<>> THEN Ev.r = "err" ELSE Ev.r = "ok" /\ Ev.out = x /\ Ev.z = Len(x) + 4
  \/ Is("big") /\ Ev.r = "ok" /\ B(Ev.same)
  \/ Is("bigalter") /\ Ev.r = "err"
\* nothing more to do for a trace that is explained
Progress == TLCGet(tr) <= Len(Traces[tr].ev) /\ (IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE)
TNext == l <= Len(Traces[tr].ev) /\ Act /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_<<tr, l>>
Rejected == {k \in 1..N : TLCGet(k) <= Len(Traces[k].ev)}
Accepted == \A k \in Rejected : PrintT(<<"REJECTED", Traces[k].id, TLCGet(k)>>)
=============================================================================
