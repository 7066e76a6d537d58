--------------------------------- MODULE Nvm ---------------------------------
(* Devices and the views split from them: each is an array of sectors of its  *)
(* own, on a device they share.  dev: which write gave each sector its        *)
(* content; views: first sector, length in bytes, position.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES dev, views
nvars == <<dev, views>>
S == 512
\* n sectors of the device belong to the first view, which starts at sector a
NInit(size, a, n) == dev = [k \in 1..size |-> 1] /\ views = <<[a |-> a, n |-> n * S, p |-> 0]>>

Al(x) == x % S = 0
Least(a, b) == IF a < b THEN a ELSE b
Failed(r) == r \notin {"ok", "panic"}
Keep(v, q) == q = views[v].p /\ UNCHANGED nvars
\* a transfer of n bytes that starts at off, inside of the view
In(v, off) == off >= 0 /\ off <= views[v].n
Sectors(v, off, c) == [k \in 1..(c \div S) |-> views[v].a + (off \div S) + k]
Has(v, off, c, sg) ==
  LET l == Sectors(v, off, c) IN
  Len(sg) = Len(l) /\ \A k \in DOMAIN l : \E x \in DOMAIN sg[k] : sg[k][x] = dev[l[k]]
Set(v, off, c, t) ==
  LET f == views[v].a + (off \div S) IN
  dev' = [k \in DOMAIN dev |-> IF k > f /\ k <= f + (c \div S) THEN t ELSE dev[k]]
At(v, q, to) == q = to /\ views' = [views EXCEPT ![v].p = to]

Seek(v, r, off, whence, ret, q) ==
  LET to == CASE whence = 0 -> off [] whence = 1 -> views[v].p + off [] whence = 2 -> views[v].n + off [] OTHER -> -1 IN
  IF Al(off) /\ In(v, to)
  THEN r = "ok" /\ ret = to /\ At(v, q, to) /\ UNCHANGED dev
  ELSE Failed(r) /\ Keep(v, q)
Read(v, r, n, c, sg, q) ==
  LET p == views[v].p e == Least(n, views[v].n - p) IN
  IF e = 0 THEN r # "panic" /\ (r = "ok" => c = 0) /\ (n > 0 => r = "eof") /\ Keep(v, q)
  ELSE IF ~Al(n) THEN Failed(r) /\ Keep(v, q)
  ELSE r = "ok" /\ c = e /\ Has(v, p, e, sg) /\ At(v, q, p + e) /\ UNCHANGED dev
ReadAt(v, r, off, n, c, sg, q) ==
  LET e == Least(n, views[v].n - off) IN
  IF ~Al(off) \/ ~In(v, off) \/ ~Al(n) THEN Failed(r) /\ Keep(v, q)
  ELSE IF e = 0 THEN r # "panic" /\ (r = "ok" => c = 0) /\ (n > 0 => r = "eof") /\ Keep(v, q)
  ELSE r = "ok" /\ c = e /\ Has(v, off, e, sg) /\ Keep(v, q)
Write(v, r, n, c, t, q) ==
  LET p == views[v].p e == Least(n, views[v].n - p) IN
  IF ~Al(n) THEN Failed(r) /\ Keep(v, q)
  ELSE IF e = 0 THEN r # "panic" /\ (r = "ok" => c = 0) /\ Keep(v, q)
  ELSE r = "ok" /\ c = e /\ Set(v, p, e, t) /\ At(v, q, p + e)
WriteAt(v, r, off, n, c, t, q) ==
  LET e == Least(n, views[v].n - off) IN
  IF ~Al(off) \/ ~In(v, off) \/ ~Al(n) THEN Failed(r) /\ Keep(v, q)
  ELSE IF e = 0 THEN r # "panic" /\ (r = "ok" => c = 0) /\ Keep(v, q)
  ELSE r = "ok" /\ c = e /\ Set(v, off, e, t) /\ q = views[v].p /\ UNCHANGED views
Split(v, r, at, lc, rc, q) ==
  IF Al(at) /\ In(v, at)
  THEN /\ r = "ok" /\ lc = at /\ rc = views[v].n - at /\ q = views[v].p
       /\ views' = views \o <<[a |-> views[v].a, n |-> at, p |-> 0],
                              [a |-> views[v].a + (at \div S), n |-> views[v].n - at, p |-> 0]>>
       /\ UNCHANGED dev
  ELSE Failed(r) /\ Keep(v, q)
\* what the device holds, inside and outside of the views
Device(sg) ==
  /\ Len(sg) = Len(dev) /\ \A k \in DOMAIN dev : \E x \in DOMAIN sg[k] : sg[k][x] = dev[k]
  /\ UNCHANGED nvars
\* the views know their position and length
Look(ps, cs) ==
  /\ Len(ps) = Len(views) /\ Len(cs) = Len(views)
  /\ \A k \in DOMAIN views : ps[k] = views[k].p /\ cs[k] = views[k].n
  /\ UNCHANGED nvars
=============================================================================
