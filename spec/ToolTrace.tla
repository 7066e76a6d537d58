----------------------------- MODULE ToolTrace -----------------------------
(* Checks recorded executions of the command line tool against Tool.  The file    *)
(* holds one trace per line; a behaviour of this module is one of them.      *)
EXTENDS Tool, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
ASSUME \A k \in 1..N : TLCSet(k, 0)
tvars == <<vars, tr, l>>

TInit == /\ \E k \in 1..N : tr = k /\ Init(Traces[k].cfg)
         /\ l = 1
Ev == Traces[tr].ev[l]
\* nothing more to do for a trace that is explained
Progress == TLCGet(tr) <= Len(Traces[tr].ev) /\ (IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE)
TNext == l <= Len(Traces[tr].ev) /\ ~Broken(Ev) /\ ToolAct(Ev) /\ l' = l + 1 /\ tr' = tr
TSpec == TInit /\ [][TNext]_tvars
Rejected == {k \in 1..N : TLCGet(k) <= Len(Traces[k].ev)}
Accepted == \A k \in Rejected : PrintT(<<"REJECTED", Traces[k].id, TLCGet(k)>>)
=============================================================================
