------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* What a cannyls store is for its users: an ordered map from lump ids to   *)
(* byte strings with a bounded data area and a bounded journal, which may   *)
(* be killed or lose power at any moment.                                   *)
(*                                                                          *)
(* Every public operation is one action, parameterised by its arguments AND *)
(* its result: Put(i, seg, n, "ok", TRUE) is enabled exactly if a put of    *)
(* that lump may return (updated = TRUE, nil).  MCStore explores the actions*)
(* with all arguments of a small universe, StoreTrace binds them to the     *)
(* operations recorded from the real code.                                  *)
(*                                                                          *)
(* Contents are sequences of tokens: cfg.cuts are ascending byte positions, *)
(* the k-th token says which write the bytes [cuts[k], cuts[k+1]) come from *)
(* (0: zeros).  An object is what one put stored; the map leads from ids to *)
(* objects, so that in-place updates (which write through) are seen by      *)
(* every earlier version of the map too.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cfg,    \* [cuts, cap (data blocks), ring (journal bytes)], never changes
  open,
  m,      \* id -> object
  c,      \* object -> [emb, n (bytes), seg (tokens)]
  nobj,   \* objects made so far
  hist,   \* the maps since the last sync, the last is m
  fl,     \* hist[fl] was flushed: a killed process keeps at least this one
  dirty,  \* objects written since the last sync
  bad,    \* objects whose bytes a power failure destroyed
  prev,   \* [hist, fl, c, dirty] before the current operation
  asyn,   \* the current operation synced the device
  autogc, \* FALSE if automatic GC was off at any time, or had to deal with a huge record
  port,   \* object -> <<first block, blocks>>, as far as observed
  pend,   \* blocks were released since the last sync
  log     \* the journal records on the device, as far as observed

vars == <<cfg, open, m, c, nobj, hist, fl, dirty, bad, prev, asyn, autogc, port, pend, log>>

Range(s) == {s[k] : k \in DOMAIN s}
Empty == [x \in {} |-> 0]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
RECURSIVE SumF(_, _)
SumF(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN F(x) + SumF(F, S \ {x})
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Blocks(n) == (n + 513) \div 512
LumpMax == 65535 * 512 - 2
EmbedMax == 65535
Ids == DOMAIN m
Obj(i) == c[m[i]]
Size(i) == Obj(i).n
OnDisk(o) == IF o.emb THEN o.n ELSE 512 * Blocks(o.n)
RecSize(o) == IF o.emb THEN 15 + o.n ELSE 20

(***************************************************************************)
(* ids, see harness/ids.go                                                  *)
(***************************************************************************)
MaxId == 150
Succ(i) == IF i < 40 \/ i > 53 THEN i + 1 ELSE IF i % 2 = 0 THEN i + 1 ELSE 999
InRange(a, b) == {x \in Ids : a <= x /\ x < b}

(***************************************************************************)
(* contents                                                                 *)
(***************************************************************************)
SegsTo(n) == Cardinality({k \in DOMAIN cfg.cuts : cfg.cuts[k] < n})   \* number of segments of the first n bytes
SegAt(p) == MaxOf({k \in DOMAIN cfg.cuts : cfg.cuts[k] <= p})         \* segment of byte p
Fill(t, n) == [k \in 1..SegsTo(n) |-> t]
\* bytes [s, s+l) of a new object of n bytes come from t, the others are zeros
Padded(t, s, l, n) == [k \in 1..SegsTo(n) |-> IF cfg.cuts[k] >= s /\ cfg.cuts[k] < s + l THEN t ELSE 0]
Overlay(seg, t, s, l) == [k \in DOMAIN seg |-> IF cfg.cuts[k] >= s /\ cfg.cuts[k] < s + l THEN t ELSE seg[k]]
Part(seg, s, e) == IF e <= s THEN <<>> ELSE SubSeq(seg, SegAt(s), SegsTo(e))
\* observed: for each segment the tokens it may come from
Same(obs, seg) == Len(obs) = Len(seg) /\ \A k \in DOMAIN seg : seg[k] \in Range(obs[k])

(***************************************************************************)
(* space                                                                    *)
(***************************************************************************)
BlockIds == {x \in Ids : ~Obj(x).emb}
UsedBlocks(S) == LET f(x) == Blocks(Size(x)) IN SumF(f, S)
FreeBlocks == cfg.cap - UsedBlocks(BlockIds)
\* With n segments in use the largest free run of f blocks is at least f/(n+1)
CanBeFull(need, without) ==
  LET S == BlockIds \ without  f == cfg.cap - UsedBlocks(S)  n == Cardinality(S)
  IN need > (f + n) \div (n + 1)
\* a store of cfg.tot sectors of which cfg.num/16 were asked for the journal: header, journal and
\* data lie within the file, and it is refused only if nothing is left for the data
CreateOk(r) ==
  LET j == MaxOf({2, (cfg.tot * cfg.num + 15) \div 16}) IN
  IF r = "ok" THEN cfg.cap >= 1 /\ cfg.jsec >= 2 /\ cfg.ring = 512 * (cfg.jsec - 1) /\ 1 + cfg.jsec + cfg.cap <= cfg.tot
  ELSE r \notin {"panic", "hang"} /\ cfg.tot > 0 /\ cfg.tot - 1 - j < 1
LiveBytes == LET f(x) == RecSize(Obj(x)) IN SumF(f, Ids)
\* GC keeps a quarter of the journal usable
CanJFull(rec) == ~autogc \/ 4 * (LiveBytes + rec + 1024) > cfg.ring

(***************************************************************************)
(* transitions of the map                                                   *)
(***************************************************************************)
Prev == /\ prev' = IF asyn THEN prev ELSE [hist |-> hist, fl |-> fl, c |-> c, dirty |-> dirty]
        /\ asyn' = FALSE

Init(k) ==
  /\ cfg = k /\ open = TRUE /\ m = Empty /\ c = Empty /\ nobj = 0
  /\ hist = <<Empty>> /\ fl = 1 /\ dirty = {} /\ bad = {}
  /\ prev = [hist |-> <<Empty>>, fl |-> 1, c |-> Empty, dirty |-> {}] /\ asyn = FALSE
  /\ autogc = k.auto /\ port = Empty /\ pend = FALSE /\ log = <<>>

Same_ == UNCHANGED <<cfg, open, m, c, nobj, hist, fl, dirty, bad, autogc, port, pend, log>>
\* an operation without any effect
Nop == Same_ /\ Prev

\* the map becomes the last of maps, one after the other
Become(maps) ==
  /\ m' = maps[Len(maps)]
  /\ hist' = hist \o maps
  /\ pend' = (pend \/ \E x \in BlockIds : x \notin DOMAIN m' \/ m'[x] # m[x])
  /\ Prev
  /\ UNCHANGED <<cfg, open, fl, bad, port, log>>
NoNew == UNCHANGED <<c, nobj, dirty, autogc>>

Insert(i, o, first) ==
  LET k == nobj + 1 IN
  /\ nobj' = k
  /\ c' = (k :> o) @@ c
  /\ dirty' = dirty \cup {k}
  /\ autogc' = (autogc /\ 4 * RecSize(o) <= cfg.ring)
  /\ Become(first \o <<(i :> k) @@ m>>)
RemoveMaps(S) == <<Without(m, S)>>

\* an overwrite that found the data area full dropped the old version first
MayDrop(i, need) == i \in BlockIds /\ CanBeFull(need, {})
IoOk(r, flt) == (r = "io" \/ r = "jfull") /\ flt

\* the journal takes no record of that size
JErr(r, rec, flt) == (r = "jfull" /\ CanJFull(rec)) \/ IoOk(r, flt)

\* the outcomes of storing a block-stored object
StoreBlocks(i, o, r, flt) ==
  LET need == Blocks(o.n) IN
  \/ r = "ok" /\ Insert(i, o, <<>>)
  \/ r = "ok" /\ MayDrop(i, need) /\ Insert(i, o, RemoveMaps({i}))
  \/ r = "full" /\ CanBeFull(need, {i}) /\ Nop
  \/ r = "full" /\ MayDrop(i, need) /\ CanBeFull(need, {i}) /\ NoNew /\ Become(RemoveMaps({i}))
  \/ JErr(r, 20, flt) /\ Nop
  \/ JErr(r, 20, flt) /\ MayDrop(i, need) /\ NoNew /\ Become(RemoveMaps({i}))

Put(i, seg, n, r, up, flt) ==
  /\ open
  /\ \/ n > LumpMax /\ r = "inval" /\ Nop
     \/ n <= LumpMax /\ (r = "ok" => up = (i \in Ids)) /\ StoreBlocks(i, [emb |-> FALSE, n |-> n, seg |-> seg], r, flt)

PutEmbed(i, seg, n, r, up, flt) ==
  /\ open
  /\ \/ n > EmbedMax /\ r = "inval" /\ Nop
     \/ /\ n <= EmbedMax
        /\ (r = "ok" => up = (i \in Ids))
        /\ \/ r = "ok" /\ Insert(i, [emb |-> TRUE, n |-> n, seg |-> seg], <<>>)
           \/ JErr(r, 15 + n, flt) /\ Nop

\* the same value put done times, of as many as asked for: a store syncs by itself
\* after so many records without a sync
SyncEvery == 8200
Burst(i, seg, n, r, up, done, flt) ==
  IF done = 0 THEN PutEmbed(i, seg, n, r, up, flt)
  ELSE /\ open /\ n <= EmbedMax /\ up = (i \in Ids)
       /\ r = "ok" \/ JErr(r, 15 + n, flt) = TRUE
       /\ LET o == [emb |-> TRUE, n |-> n, seg |-> seg]
              k == nobj + 1
              mm == (i :> k) @@ m IN
          IF done < SyncEvery THEN Insert(i, o, <<>>)
          ELSE /\ nobj' = k /\ c' = (k :> o) @@ c /\ m' = mm
               /\ hist' = <<mm>> /\ fl' = 1 /\ dirty' = {}
               /\ autogc' = (autogc /\ 4 * RecSize(o) <= cfg.ring)
               /\ pend' = (pend \/ i \in BlockIds)
               /\ Prev /\ UNCHANGED <<cfg, open, bad, port, log>>

\* the same value put again and again, with deletes and syncs in between: its blocks are
\* free for it again, so that old and new records of it look alike
Cycle(i, seg, n, r, up, done, there, flt) ==
  IF done = 0 THEN r # "ok" /\ Put(i, seg, n, r, up, flt)
  ELSE IF r = "ok" \/ there
  THEN (r = "ok" \/ JErr(r, 20, flt) = TRUE) /\ Put(i, seg, n, "ok", up, flt)
  ELSE open /\ JErr(r, 20, flt) = TRUE /\ NoNew /\ Become(RemoveMaps({i}))

\* bytes [s, s+l) of lump i become t
PutOffset(i, t, s, l, rv, r, flt) ==
  /\ open
  /\ IF i \in Ids
     THEN LET o == Obj(i) IN
          \/ r = "inval" /\ (o.emb \/ s + l > o.n) /\ Nop
          \/ r = "io" /\ flt /\ ~o.emb /\ Nop
          \/ r \in {"ok", "inval", "corrupt"} /\ m[i] \in bad /\ Nop
          \/ /\ r = "ok" /\ ~o.emb /\ s + l <= o.n /\ m[i] \notin bad
             /\ c' = [c EXCEPT ![m[i]].seg = Overlay(o.seg, t, s, l)]
             /\ dirty' = IF l = 0 THEN dirty ELSE dirty \cup {m[i]}
             /\ Prev
             /\ UNCHANGED <<cfg, open, m, nobj, hist, fl, bad, autogc, port, pend, log>>
     ELSE LET n == IF s + l > rv THEN s + l ELSE rv IN
          \/ n > LumpMax /\ r = "inval" /\ Nop
          \/ n <= LumpMax /\ StoreBlocks(i, [emb |-> FALSE, n |-> n, seg |-> Padded(t, s, l, n)], r, flt)

Delete(i, r, up, sz, flt) ==
  /\ open
  /\ IF i \in Ids
     THEN \/ /\ r = "ok" /\ up /\ sz = OnDisk(Obj(i))
             /\ NoNew /\ Become(RemoveMaps({i}))
          \/ JErr(r, 13, flt) /\ Nop
     ELSE r = "ok" /\ ~up /\ sz = 0 /\ Nop

DeleteRange(a, b, r, flt) ==
  /\ open
  /\ \/ r = "ok" /\ NoNew /\ Become(RemoveMaps(InRange(a, b)))
     \/ JErr(r, 21, flt) /\ Nop

(***************************************************************************)
(* queries: results                                                         *)
(***************************************************************************)
Missing(r) == r \in {"nf", "inval"}
GetOk(i, r, n, obs, flt) ==
  \/ i \notin Ids /\ Missing(r)
  \/ i \in Ids /\ m[i] \in bad
  \/ i \in Ids /\ r = "ok" /\ n = Size(i) /\ Same(obs, Obj(i).seg)
  \/ r = "io" /\ flt
\* bytes [s, s+l)
GetOffsetOk(i, s, l, r, n, obs, flt) ==
  \/ i \notin Ids /\ Missing(r)
  \/ i \in Ids /\ m[i] \in bad
  \/ r = "io" /\ flt
  \/ /\ i \in Ids
     /\ LET o == Obj(i)
            reserved == IF o.emb THEN o.n ELSE 512 * Blocks(o.n) - 2
            e == IF s + l > o.n THEN o.n ELSE s + l IN
        IF s > o.n \/ s + l > reserved THEN r = "inval"
        ELSE r = "ok" /\ n = e - s /\ Same(obs, Part(o.seg, s, e))
SizeOk(i, r, n, flt) ==
  \/ i \notin Ids /\ Missing(r)
  \/ i \in Ids /\ m[i] \in bad
  \/ i \in Ids /\ r = "ok" /\ n = Size(i)
  \/ r = "io" /\ flt
SizeOnDiskOk(i, r, n) ==
  \/ i \notin Ids /\ Missing(r)
  \/ i \in Ids /\ r = "ok" /\ n = OnDisk(Obj(i))
Ascending(l) == \A k \in 1..Len(l) - 1 : l[k] < l[k + 1]
ListOk(l) == Ascending(l) /\ Range(l) = Ids
ListRangeOk(a, b, k, l) ==
  LET R == InRange(a, b) IN
  /\ Ascending(l) /\ Range(l) \subseteq R
  /\ Len(l) = (IF Cardinality(R) < k THEN Cardinality(R) ELSE k)
  /\ \A x \in R \ Range(l), y \in Range(l) : y < x
MinOk(i, ok) == IF Ids = {} THEN ~ok ELSE ok /\ i = MinOf(Ids)
MaxOk(i, ok) == IF Ids = {} THEN ~ok ELSE ok /\ i = MaxOf(Ids)
FirstOk(a, r, i) ==
  LET S == {x \in Ids : a <= x} IN
  IF S = {} THEN Missing(r) ELSE r = "ok" /\ i = MinOf(S)
\* behind the last one, or the first hole
GenOk(i, ok) ==
  ok /\ IF Ids = {} THEN i = 0
        ELSE IF MaxOf(Ids) = MaxId THEN i = MinOf((0..Cardinality(Ids)) \ Ids)
        ELSE i = Succ(MaxOf(Ids))
UsageOk(u) ==
  /\ u.n = Cardinality(Ids)
  /\ u.fr = FreeBlocks /\ u.fx = 0
  /\ u.dc = cfg.cap /\ u.jc = 512 * cfg.jsec
  /\ u.ju <= cfg.ring
  /\ u.ms <= FreeBlocks

\* the blocks of the lumps: p is a sequence of [i, s, n]
Portions(p) == [x \in {p[k].i : k \in DOMAIN p} |-> LET k == CHOOSE k \in DOMAIN p : p[k].i = x IN <<p[k].s, p[k].n>>]
Disjoint(a, b) == a[1] + a[2] <= b[1] \/ b[1] + b[2] <= a[1]
OwnOk(p) ==
  LET P == Portions(p) IN
  /\ DOMAIN P = BlockIds
  /\ \A x \in BlockIds : /\ P[x][2] = Blocks(Size(x))
                         /\ P[x][1] + P[x][2] <= cfg.cap
                         /\ m[x] \in DOMAIN port => port[m[x]] = P[x]
  /\ \A x, y \in BlockIds : x < y => Disjoint(P[x], P[y])
Own(p) ==
  /\ OwnOk(p) = TRUE
  /\ port' = [o \in {m[x] : x \in BlockIds} |-> LET x == CHOOSE x \in BlockIds : m[x] = o IN Portions(p)[x]]
  /\ UNCHANGED <<cfg, open, m, c, nobj, hist, fl, dirty, bad, prev, asyn, autogc, pend, log>>
\* the free runs between the portions
Runs ==
  LET P == {port[m[x]] : x \in BlockIds}
      starts == {0} \cup {p[1] + p[2] : p \in P} IN
  {LET nx == {p[1] : p \in {q \in P : q[1] >= s}} IN (IF nx = {} THEN cfg.cap ELSE MinOf(nx)) - s : s \in starts}
\* exact if all portions are known and nothing waits for a sync
MaxSegOk(ms) ==
  (\A x \in BlockIds : m[x] \in DOMAIN port) =>
     LET r == MaxOf(Runs)  k == IF r > 65535 THEN 65535 ELSE r IN IF pend THEN ms <= k ELSE ms = k

(***************************************************************************)
(* device writes: w is a sequence of [g (region), lo, hi], changed bytes    *)
(***************************************************************************)
\* outside the ring: only the journal head, and blocks that no other lump owns
WritesOk(o, i, w) ==
  \A k \in DOMAIN w :
    /\ w[k].g \in {"jh", "d"}
    /\ w[k].g = "jh" => o # "get" /\ w[k].hi <= 512
    /\ w[k].g = "d" =>
         /\ o \in {"put", "puto"} /\ w[k].hi <= 512 * cfg.cap
         /\ \A x \in BlockIds \ (IF o = "puto" THEN {i} ELSE {}) :
              m[x] \in DOMAIN port =>
                w[k].hi <= 512 * port[m[x]][1] \/ w[k].lo >= 512 * (port[m[x]][1] + port[m[x]][2])
\* the journal: writes to the ring only add records behind those that a restart
\* would find, writes of its head only take away some of the first ones
RingOk(k, l) ==
  \/ k = "init"
  \/ k = "ring" /\ Len(log) <= Len(l) /\ SubSeq(l, 1, Len(log)) = log
  \/ k = "head" /\ Len(l) <= Len(log) /\ SubSeq(log, Len(log) - Len(l) + 1, Len(log)) = l
Ring(k, l) == RingOk(k, l) = TRUE /\ log' = l /\ UNCHANGED <<cfg, open, m, c, nobj, hist, fl, dirty, bad, prev, asyn, autogc, port, pend>>

(***************************************************************************)
(* durability                                                               *)
(***************************************************************************)
Flush(flt) ==
  /\ fl' = (IF flt THEN fl ELSE Len(hist)) /\ Prev
  /\ UNCHANGED <<cfg, open, m, c, nobj, hist, dirty, bad, autogc, port, pend, log>>

Durable ==
  /\ hist' = <<m>> /\ fl' = 1 /\ dirty' = {}
  /\ c' = [o \in {m[x] : x \in Ids} |-> c[o]]
  /\ UNCHANGED <<cfg, m, nobj, bad, autogc, port>>
Sync == Durable /\ Prev /\ pend' = FALSE /\ UNCHANGED <<open, log>>
\* the device was synced somewhere inside the next operation
AutoSync ==
  /\ prev' = [hist |-> hist, fl |-> fl, c |-> c, dirty |-> dirty] /\ asyn' = TRUE
  /\ hist' = <<m>> /\ fl' = 1 /\ dirty' = {}
  /\ UNCHANGED <<cfg, open, m, c, nobj, bad, autogc, port, pend, log>>
Close == open /\ open' = FALSE /\ Durable /\ Prev /\ pend' = FALSE /\ UNCHANGED log
Open(r) ==
  /\ ~open /\ open' = TRUE /\ r = "ok" /\ Prev
  /\ UNCHANGED <<cfg, m, c, nobj, hist, fl, dirty, bad, autogc, port, pend, log>>
SetAuto(on) ==
  /\ autogc' = (autogc /\ on) /\ Prev
  /\ UNCHANGED <<cfg, open, m, c, nobj, hist, fl, dirty, bad, port, pend, log>>

(***************************************************************************)
(* contents of a reopened store: cnt lumps, d a sequence of [i, r, n, s, sg]*)
(***************************************************************************)
Dumped(d) == {d[k].i : k \in DOMAIN d}
EntryIs(e, cc, o) == e.r = "ok" /\ e.n = cc[o].n /\ e.s = OnDisk(cc[o]) /\ Same(e.sg, cc[o].seg)
DumpIs(d, map, cc, lost) ==
  /\ Len(d) = Cardinality(DOMAIN map)
  /\ \A k \in DOMAIN d : d[k].i \in DOMAIN map
  /\ \A k \in DOMAIN d : IF map[d[k].i] \in lost THEN d[k].s = OnDisk(cc[map[d[k].i]]) ELSE EntryIs(d[k], cc, map[d[k].i])
Shape(d, cnt) == cnt = Len(d) /\ Ascending([k \in DOMAIN d |-> d[k].i])

DumpOk(d, cnt) == Shape(d, cnt) /\ DumpIs(d, m, c, bad)

\* a process kill: one of the states since the last flush
KillStates == {k \in DOMAIN hist : k >= fl}
KillOk(d, cnt, mid) ==
  /\ Shape(d, cnt)
  /\ \/ \E k \in KillStates : DumpIs(d, hist[k], c, bad)
     \/ mid /\ \E k \in KillStates : DumpIs(d, hist[k], prev.c @@ c, bad)
     \/ mid /\ \E k \in DOMAIN prev.hist : k >= prev.fl /\ (DumpIs(d, prev.hist[k], prev.c, bad) \/ DumpIs(d, prev.hist[k], c @@ prev.c, bad))

\* bytes in the journal of a copy of the file were altered, and the copy was opened
SpoilOk(k, r, d, cnt) ==
  IF k = "record" THEN r = "openerr" ELSE r = "ok" /\ KillOk(d, cnt, FALSE)

\* a power failure: each lump as in one of the states since the last sync
PowerMaps(mid) == Range(hist) \cup (IF mid THEN Range(prev.hist) ELSE {})
PowerIs(e, o, mid) ==
  \/ o \in DOMAIN c /\ o \in (bad \cup dirty) /\ ~c[o].emb /\ e.s = OnDisk(c[o])
  \/ o \in DOMAIN c /\ EntryIs(e, c, o)
  \/ mid /\ o \in DOMAIN prev.c /\ o \in (bad \cup prev.dirty) /\ ~prev.c[o].emb /\ e.s = OnDisk(prev.c[o])
  \/ mid /\ o \in DOMAIN prev.c /\ EntryIs(e, prev.c, o)
PowerOk(d, cnt, mid) ==
  /\ Shape(d, cnt)
  /\ \A k \in DOMAIN d : \E mp \in PowerMaps(mid) : d[k].i \in DOMAIN mp /\ PowerIs(d[k], mp[d[k].i], mid)
  /\ \A x \in UNION {DOMAIN mp : mp \in PowerMaps(mid)} :
        x \in Dumped(d) \/ \E mp \in PowerMaps(mid) : x \notin DOMAIN mp

\* the crash happens, and the store goes on from what was found
CrashTo(map, lost) ==
  /\ m' = map /\ hist' = <<map>> /\ fl' = 1 /\ dirty' = {} /\ bad' = (bad \cup lost) \cap {map[x] : x \in DOMAIN map}
  /\ c' = [o \in {map[x] : x \in DOMAIN map} |-> c[o]]
  /\ prev' = [hist |-> <<map>>, fl |-> 1, c |-> c', dirty |-> {}] /\ asyn' = FALSE
  /\ port' = Empty /\ pend' = FALSE /\ open' = TRUE
  /\ UNCHANGED <<cfg, nobj, autogc, log>>
Kill(d, cnt) ==
  /\ Shape(d, cnt)
  /\ LET K == {k \in KillStates : DumpIs(d, hist[k], c, bad)} IN
     K # {} /\ CrashTo(hist[MaxOf(K)], {})
PowerLoss(d, cnt) ==
  /\ PowerOk(d, cnt, FALSE) = TRUE
  /\ LET map == [x \in Dumped(d) |->
           LET e == d[CHOOSE k \in DOMAIN d : d[k].i = x]
               O == {mp[x] : mp \in {q \in Range(hist) : x \in DOMAIN q}}
               exact == {o \in O : o \notin bad /\ EntryIs(e, c, o)} IN
           IF exact # {} THEN MaxOf(exact) ELSE MaxOf({o \in O : PowerIs(e, o, FALSE)})]
         lost == {map[x] : x \in {y \in DOMAIN map :
                    LET e == d[CHOOSE k \in DOMAIN d : d[k].i = y] IN ~EntryIs(e, c, map[y])}} IN
     CrashTo(map, lost)
=============================================================================
