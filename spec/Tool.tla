-------------------------------- MODULE Tool --------------------------------
(* The command line tool: every invocation opens the store, does one         *)
(* operation of Store and closes it again.  The recorded events are the      *)
(* invocations with what they printed; the store is looked at in between.    *)
EXTENDS StoreAct
Failed(r) == r \notin {"ok", "killed", "panic", "hang", "died", "badop"}
Sz(i) == IF i \in Ids THEN OnDisk(Obj(i)) ELSE 0
Settled == /\ hist' = <<m'>> /\ fl' = 1 /\ dirty' = {}

\* the data area has now n blocks
Resize(n) == cfg' = [cfg EXCEPT !.cap = n] /\ Prev /\ UNCHANGED <<open, m, c, nobj, hist, fl, dirty, bad, autogc, port, pend, log>>
ResizeTo(n, r) ==
  \/ r = "ok" /\ n > cfg.cap /\ Resize(n)
  \/ Failed(r) /\ n <= cfg.cap /\ Nop
\* what a dump shows: d is a sequence of [i, n, sg]
ShownOk(d) ==
  /\ Ascending([k \in DOMAIN d |-> d[k].i]) /\ {d[k].i : k \in DOMAIN d} = Ids
  /\ \A k \in DOMAIN d : d[k].n = Size(d[k].i) /\ Same(d[k].sg, Obj(d[k].i).seg)
\* the report: data capacity, journal size, and after a replay the lumps and the
\* numbers of free blocks that are shown that way
ReportOk(e) == /\ e.dc = cfg.cap /\ e.jc = 512 * cfg.jsec /\ e.bs = 512
               /\ e.uu = 1      \* only one name of the store was ever shown
               /\ e.full => /\ e.n = Cardinality(Ids) /\ FreeBlocks \in Range(e.fr)
                            /\ cfg.cap \in Range(e.dct) /\ cfg.jsec \in Range(e.jct)

\* killed in the middle of it: done or not
Killed(e, A) == e.r = "killed" /\ (A \/ Nop)
KPut(i, t, n) == LET o == [emb |-> FALSE, n |-> n, seg |-> Fill(t, n)] IN
  n <= LumpMax /\ \E r \in {"ok", "full"} : StoreBlocks(i, o, r, FALSE)
ToolAct(e) ==
  CASE e.e = "kput" -> Put(e.i, Fill(e.t, e.n), e.n, e.r, e.i \in Ids, FALSE) \/ Killed(e, KPut(e.i, e.t, e.n))
    [] e.e = "kpute" -> PutEmbed(e.i, Fill(e.t, e.n), e.n, e.r, e.i \in Ids, FALSE) \/ Killed(e, PutEmbed(e.i, Fill(e.t, e.n), e.n, "ok", e.i \in Ids, FALSE))
    [] e.e = "kdel" -> Delete(e.i, e.r, e.i \in Ids, Sz(e.i), FALSE) \/ Killed(e, Delete(e.i, "ok", e.i \in Ids, Sz(e.i), FALSE))
    [] e.e = "kget" -> B(GetOk(e.i, e.r, e.n, e.sg, FALSE)) /\ Nop
    [] e.e = "kdump" -> e.r = "ok" /\ B(ShownOk(e.d)) /\ Nop
    [] e.e = "khead" -> e.r = "ok" /\ B(ReportOk(e)) /\ Nop
    [] e.e = "kjournal" -> e.r = "ok" /\ e.n >= Cardinality(Ids) /\ Nop
    [] e.e = "kgc" -> e.r \in {"ok", "killed"} /\ Nop
    [] e.e = "kgrow" -> ResizeTo(e.n, e.r) \/ Killed(e, e.n > cfg.cap /\ Resize(e.n))
    [] e.e = "kbad" -> Failed(e.r) /\ Nop            \* a request that makes no sense
    [] e.e = "shot" -> e.r = "ok" /\ Nop             \* the snapshot still shows the bytes it did at first
    [] OTHER -> Act(e)
=============================================================================
