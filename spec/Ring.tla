-------------------------------- MODULE Ring --------------------------------
(* The journal ring as the journal region sees it.                           *)
(* recs: the unreleased records, oldest first, [p |-> position, h |-> hash   *)
(* of the content, z |-> size]; the first np of them have been popped;       *)
(* uh: everything behind uh (in ring order, up to tail) must survive;        *)
(* dv: so many records, at least, are found by a restart at uh.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES cap, recs, np, uh, tail, hd, dv
rvars == <<cap, recs, np, uh, tail, hd, dv>>

EndMark == 5
Align == 511        \* a device sector may have to stay free
End(x) == x.p + x.z
Usage == IF uh <= tail THEN tail - uh ELSE tail + cap - uh

RInit(c, h) == cap = c /\ recs = <<>> /\ np = 0 /\ uh = h /\ tail = h /\ hd = h /\ dv = 0

\* where a record of z bytes and the end mark behind it can go
FitsBehind(z) == tail + z + EndMark <= (IF tail < uh THEN uh ELSE cap)
FitsFront(z) == tail >= uh /\ z + EndMark <= uh
MayBeFull(z) == IF tail < uh THEN tail + z + EndMark + Align > uh
                ELSE tail + z + EndMark > cap /\ z + EndMark + Align > uh

Enqueue(r, z, h, t, jp, jl, emb) ==
  \/ /\ r = "ok"
     /\ LET p == t - z IN
        /\ \/ p = tail /\ FitsBehind(z)
           \/ p = 0 /\ FitsFront(z)
        /\ recs' = Append(recs, [p |-> p, h |-> h, z |-> z])
        /\ tail' = t
        /\ IF emb THEN jp = p + 15 /\ jl = z - 15 ELSE TRUE
     /\ UNCHANGED <<cap, np, uh, hd, dv>>
  \/ r = "jfull" /\ MayBeFull(z) /\ UNCHANGED rvars
Pop(r, n, l, h) ==
  /\ r = "ok"
  /\ LET k == IF n < Len(recs) - np THEN n ELSE Len(recs) - np IN
     /\ l = SubSeq(recs, np + 1, np + k)
     /\ np' = np + k
     /\ hd' = IF k = 0 THEN hd ELSE End(recs[np + k])
     /\ h = hd'
  /\ UNCHANGED <<cap, recs, uh, tail, dv>>
\* the first n, popped ones, are not needed any more
Release(n, p) ==
  /\ n <= np
  /\ p = End(recs[n]) \/ (n < Len(recs) /\ p = recs[n + 1].p)
  /\ recs' = SubSeq(recs, n + 1, Len(recs)) /\ np' = np - n /\ uh' = p
  /\ dv' = IF dv > n THEN dv - n ELSE 0
  /\ UNCHANGED <<cap, tail, hd>>
Flush(r) == r = "ok" /\ dv' = Len(recs) /\ UNCHANGED <<cap, recs, np, uh, tail, hd>>
Iter(r, l) == r = "ok" /\ l = recs /\ UNCHANGED rvars
Get(r, p, h) == r = "ok" /\ (\E k \in DOMAIN recs : recs[k].p = p /\ recs[k].h = h) /\ UNCHANGED rvars
\* synced, and read again from the unreleased head
Reopen(r, l, t) == r = "ok" /\ l = recs /\ t = tail /\ dv' = Len(recs) /\ np' = 0 /\ hd' = uh /\ UNCHANGED <<cap, recs, uh, tail>>
\* the records that a restart would find now
Device(l) == Len(l) >= dv /\ IsPrefix(l, recs) /\ dv' = Len(l) /\ UNCHANGED <<cap, recs, np, uh, tail, hd>>

Disjoint == \A a, b \in DOMAIN recs : a < b => End(recs[a]) <= recs[b].p \/ End(recs[b]) <= recs[a].p
Inside == \A a \in DOMAIN recs : recs[a].p >= 0 /\ End(recs[a]) + EndMark <= cap
=============================================================================
