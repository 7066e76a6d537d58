------------------------------ MODULE StoreImpl ------------------------------
(***************************************************************************)
(* How a store works, on a device that loses any of its unsynced writes:    *)
(* the journal ring with its records, end marks and sectors, the write      *)
(* buffer, the head, garbage collection, the reuse of data blocks.          *)
(* Positions and sizes are the real ones (bytes).                           *)
(*                                                                          *)
(* Each operation runs here first (it leaves a result and the crash points  *)
(* it went through), then Store has to accept it as the same operation with *)
(* that result, and at every crash point each image that a kill or a power  *)
(* failure may leave.  A behaviour that Store does not accept deadlocks.    *)
(*                                                                          *)
(* The constants in Fix are parts of the design; without one of them (the   *)
(* original code lacked them) TLC finds the histories that lose data.       *)
(***************************************************************************)
EXTENDS StoreAct, Json
CONSTANTS Depth, Sectors, NBlocks, Letters, EmbSizes, MIds, Fix, Crashes
VARIABLES s, pts, todo, h
ivars == <<s, pts, todo, h>>

Sec == 512
Cap == Sec * Sectors
End == 5
CeilS(p) == ((p + Sec - 1) \div Sec) * Sec
Max2(a, b) == IF a > b THEN a ELSE b

(***************************************************************************)
(* pieces <<position, size, record>> in sectors                             *)
(***************************************************************************)
SizeOf(x) == CASE x.k \in {"end", "gtf"} -> 5 [] x.k = "put" -> 20 [] x.k = "emb" -> 15 + x.n [] x.k = "del" -> 13 [] x.k = "delr" -> 21
\* p and q have bytes in common in sector a
Clash(p, q, a) == Max2(Max2(p[1], q[1]), Sec * a) < MinOf({p[1] + p[2], q[1] + q[2], Sec * (a + 1)})
In(p, a) == p[1] < Sec * (a + 1) /\ p[1] + p[2] > Sec * a
Place(S, p, a) == {q \in S : ~Clash(p, q, a)} \cup {p}

(***************************************************************************)
(* the device: dur is durable, cur with the writes pw on top                *)
(***************************************************************************)
Apply(d, w) == CASE w.t = "ring" -> [d EXCEPT !.ring = [a \in DOMAIN d.ring |-> IF a >= w.a /\ a < w.a + Len(w.x) THEN w.x[a - w.a + 1] ELSE d.ring[a]]]
                 [] w.t = "head" -> [d EXCEPT !.head = w.x]
                 [] w.t = "blk"  -> [d EXCEPT !.blk[w.a] = w.x]
RECURSIVE ApplyAll(_, _)
ApplyAll(d, ws) == IF ws = <<>> THEN d ELSE ApplyAll(Apply(d, Head(ws)), Tail(ws))
Point(t) == [t EXCEPT !.trail = Append(@, [dur |-> t.dur, pw |-> t.pw])]
DevWrite(t, w) == Point([t EXCEPT !.cur = Apply(@, w), !.pw = Append(@, w)])
DevSync(t) == [t EXCEPT !.dur = t.cur, !.pw = <<>>, !.syn = TRUE]

(***************************************************************************)
(* the write buffer: sectors from bo on                                     *)
(***************************************************************************)
FlushBuf(t) ==
  IF t.bx = <<>> \/ ~t.bd THEN t
  ELSE LET u == DevWrite(t, [t |-> "ring", a |-> t.bo, x |-> t.bx]) IN
       [u EXCEPT !.bo = t.bo + Len(t.bx) - 1, !.bx = <<t.bx[Len(t.bx)]>>, !.bd = FALSE]
SyncRing(t) == DevSync(FlushBuf(t))
Hits(t, p) == Sec * t.bo <= p /\ p <= Sec * (t.bo + Len(t.bx))
WriteAt(t0, p, x) ==
  LET t == IF Hits(t0, p) THEN t0
           ELSE LET u == FlushBuf(t0) IN
                [u EXCEPT !.bo = p \div Sec, !.bx = IF p % Sec = 0 THEN <<>> ELSE <<u.cur.ring[p \div Sec]>>, !.bd = FALSE]
      z == SizeOf(x)
      n == Max2(Len(t.bx), CeilS(p + z) \div Sec - t.bo)
      full == [k \in 1..n |-> IF k <= Len(t.bx) THEN t.bx[k] ELSE t.cur.ring[t.bo + k - 1]]
      pc == <<p, z, x>> IN
  [t EXCEPT !.bx = [k \in 1..n |-> IF In(pc, t.bo + k - 1) THEN Place(full[k], pc, t.bo + k - 1) ELSE full[k]], !.bd = TRUE]

(***************************************************************************)
(* reading the ring                                                         *)
(***************************************************************************)
Whole(ring, p) ==
  LET S == {q \in ring[p \div Sec] : q[1] = p} IN
  IF p >= Cap \/ S = {} THEN <<>>
  ELSE LET q == CHOOSE q \in S : TRUE IN IF \A a \in DOMAIN ring : In(q, a) => q \in ring[a] THEN <<q>> ELSE <<>>
\* the records from p to the end mark, <<[p, x], ...>>, and where they end (-1: unreadable)
RECURSIVE Parse(_, _, _)
Parse(ring, p, n) ==
  LET q == Whole(ring, p) IN
  IF q = <<>> \/ n = 0 THEN [l |-> <<>>, e |-> -1]
  ELSE LET x == q[1][3] IN
       CASE x.k = "end" -> [l |-> <<>>, e |-> p]
         [] x.k = "gtf" -> Parse(ring, 0, n - 1)
         [] OTHER -> LET r == Parse(ring, p + SizeOf(x), n - 1) IN [l |-> <<[p |-> p, x |-> x]>> \o r.l, e |-> r.e]
Step1(f, r) == CASE r.x.k = "put" -> (r.x.i :> [k |-> "put", b |-> r.x.b, p |-> 0, n |-> r.x.n]) @@ f
                 [] r.x.k = "emb" -> (r.x.i :> [k |-> "emb", b |-> 0, p |-> r.p, n |-> r.x.n]) @@ f
                 [] r.x.k = "del" -> [y \in DOMAIN f \ {r.x.i} |-> f[y]]
                 [] r.x.k = "delr" -> Empty
RECURSIVE Replay(_, _)
Replay(f, l) == IF l = <<>> THEN f ELSE Replay(Step1(f, Head(l)), Tail(l))

(***************************************************************************)
(* ring and journal                                                         *)
(***************************************************************************)

Used(t) == IF t.uh <= t.tail THEN t.tail - t.uh ELSE t.tail + Cap - t.uh
\* -> [ok, t]
RECURSIVE Enqueue(_, _)
Enqueue(t, x) ==
  LET z == SizeOf(x)  we == t.tail + z + End IN
  IF CeilS(we) > (IF t.tail < t.uh THEN t.uh ELSE Cap + t.uh) THEN [ok |-> FALSE, t |-> t]
  ELSE IF we > Cap
  THEN IF CeilS(z + End) > t.uh THEN [ok |-> FALSE, t |-> t]
       ELSE LET a == IF "endfirst" \in Fix THEN SyncRing(WriteAt(t, 0, [k |-> "end"])) ELSE t
                b == WriteAt(a, t.tail, [k |-> "gtf"]) IN
            Enqueue([b EXCEPT !.tail = 0], x)
  ELSE LET both == "both" \in Fix /\ ~t.bd /\ (t.tail % Sec) + End > Sec
           a == WriteAt(WriteAt(t, t.tail, x), t.tail + z, [k |-> "end"])
           b == IF both THEN SyncRing(a) ELSE a IN
       [ok |-> TRUE, t |-> [b EXCEPT !.idx = Step1(@, [p |-> t.tail, x |-> x]), !.tail = t.tail + z]]

Garbage(t, r) ==
  CASE r.x.k \in {"del", "delr"} -> TRUE
    [] r.x.i \notin DOMAIN t.idx -> TRUE
    [] r.x.k = "put" -> ~(t.idx[r.x.i].k = "put" /\ t.idx[r.x.i].b = r.x.b)
    [] r.x.k = "emb" -> ~(t.idx[r.x.i].k = "emb" /\ t.idx[r.x.i].p = r.p)
WriteHead(t) ==
  LET hd == IF t.q = <<>> THEN t.head ELSE t.q[1].p
      a == IF "copyfirst" \in Fix THEN SyncRing(t) ELSE t
      b == DevWrite(a, [t |-> "head", a |-> 0, x |-> hd])
      e == IF "headfirst" \in Fix THEN SyncRing(b) ELSE b IN
  [e EXCEPT !.uh = hd]

EndOf(l, p) == IF l = <<>> THEN p ELSE l[Len(l)].p + SizeOf(l[Len(l)].x)
FillQueue(t) ==
  IF t.head = t.tail THEN t
  ELSE LET a == WriteHead(t)
           r == Parse(FlushBuf(a).cur.ring, a.head, 40)
           b == FlushBuf(a)
           keep(k) == r.l[k].x.k # "put" \/ "last" \notin Fix
                      \/ ~\E j \in k + 1..Len(r.l) : r.l[j].x.k \in {"put", "emb"} /\ r.l[j].x.i = r.l[k].x.i
           K == {k \in DOMAIN r.l : keep(k)}
           Nth(n) == CHOOSE k \in K : Cardinality({j \in K : j < k}) = n - 1 IN
       [b EXCEPT !.q = [n \in 1..Cardinality(K) |-> r.l[Nth(n)]], !.head = EndOf(r.l, a.head)]
RECURSIVE PopLive(_)
PopLive(t) ==
  IF t.q = <<>> THEN [ok |-> TRUE, t |-> t]
  ELSE IF Garbage(t, t.q[1]) THEN PopLive([t EXCEPT !.q = Tail(@)])
  ELSE LET u == [t EXCEPT !.q = Tail(@)]  r == Enqueue(u, t.q[1].x) IN
       IF r.ok THEN r ELSE [ok |-> FALSE, t |-> t]
GcOnce(t) == PopLive(IF t.q = <<>> /\ Cap < 2 * Used(t) THEN FillQueue(t) ELSE t)
RECURSIVE GcQueue(_, _)
GcQueue(t, n) == IF t.q = <<>> \/ n = 0 THEN [ok |-> n # 0, t |-> t] ELSE LET r == GcOnce(t) IN IF r.ok THEN GcQueue(r.t, n - 1) ELSE r
Reclaim(t) ==
  LET a == IF t.q = <<>> THEN FillQueue(t) ELSE t
      b == WriteHead(GcQueue(a, 40).t) IN
  [ok |-> b.uh # t.uh, t |-> b]
RECURSIVE Append1(_, _, _)
Append1(t, x, n) ==
  LET r == Enqueue(t, x) IN
  IF r.ok \/ n = 0 THEN r
  ELSE LET c1 == Reclaim(t) IN IF c1.ok THEN Append1(c1.t, x, n - 1) ELSE [ok |-> FALSE, t |-> c1.t]
\* a record, and a step of GC
Record1(t, x) == LET r == Append1(t, x, 2) IN IF r.ok THEN [ok |-> TRUE, t |-> GcOnce([r.t EXCEPT !.app = TRUE, !.recs = @ + 1]).t] ELSE r
RECURSIVE GcTry(_, _)
GcTry(t, n) ==
  IF t.q = <<>> \/ n = 0 THEN [ok |-> n # 0, t |-> t]
  ELSE LET r == GcOnce(t) IN
       IF r.ok THEN GcTry(r.t, n - 1)
       ELSE LET c1 == Reclaim(r.t) IN IF c1.ok THEN GcTry(c1.t, n - 1) ELSE [ok |-> FALSE, t |-> c1.t]
RECURSIVE GcRounds(_, _, _)
GcRounds(t, tail, n) ==
  LET before == t.head
      a == IF t.q = <<>> THEN FillQueue(t) ELSE t
      b == GcTry(a, 40)
      u == b.t.head
      between == (before <= tail /\ tail <= u) \/ (u <= before /\ before <= tail) \/ (tail <= u /\ u <= before) IN
  IF ~b.ok \/ between \/ n = 0 THEN b.t ELSE GcRounds(b.t, tail, n - 1)
GcAll(t) ==
  LET a == GcTry(t, 40) IN WriteHead(IF a.ok THEN GcRounds(a.t, t.tail, 6) ELSE a.t)

(***************************************************************************)
(* the store                                                                *)
(***************************************************************************)
Later(t, S) == IF "hold" \in Fix THEN [t EXCEPT !.pend = @ \cup S] ELSE [t EXCEPT !.free = @ \cup S]
BlocksIn(f, S) == {f[x].b : x \in {y \in S \cap DOMAIN f : f[y].k = "put"}}
StoreSync(t) == LET a == SyncRing(t) IN [a EXCEPT !.free = @ \cup t.pend, !.pend = {}, !.app = FALSE]
Result(r, t) == [r |-> r, t |-> t]
Version == nobj + 1
PutBlock(t, i, b) ==
  LET old == BlocksIn(t.idx, {i})
      w == DevWrite([t EXCEPT !.free = @ \ {b}], [t |-> "blk", a |-> b, x |-> Version])
      r == Record1(w, [k |-> "put", i |-> i, b |-> b, n |-> 100]) IN
  IF r.ok THEN Result("ok", Later(r.t, old)) ELSE Result("jfull", [r.t EXCEPT !.free = @ \cup {b}])
RunPut(t, i) ==
  IF t.free # {} THEN PutBlock(t, i, MinOf(t.free))
  ELSE LET a == IF t.pend # {} THEN StoreSync(t) ELSE t IN
       IF a.free # {} THEN PutBlock(a, i, MinOf(a.free))
       ELSE IF BlocksIn(a.idx, {i}) = {} THEN Result("full", a)
       ELSE LET old == BlocksIn(a.idx, {i})
                d == Record1(a, [k |-> "del", i |-> i]) IN
            IF ~d.ok THEN Result("jfull", d.t)
            ELSE LET e == StoreSync(Later(d.t, old)) IN PutBlock(e, i, MinOf(e.free))
RunEmbed(t, i, n) ==
  LET r == Record1(t, [k |-> "emb", i |-> i, n |-> n, v |-> Version]) IN
  IF r.ok THEN Result("ok", Later(r.t, BlocksIn(t.idx, {i}))) ELSE Result("jfull", r.t)
RunDelete(t, i) ==
  IF i \notin DOMAIN t.idx THEN Result("ok", t)
  ELSE LET r == Record1(t, [k |-> "del", i |-> i]) IN
       IF r.ok THEN Result("ok", Later(r.t, BlocksIn(t.idx, {i}))) ELSE Result("jfull", r.t)
RunRange(t) ==
  LET r == Record1(t, [k |-> "delr", i |-> 0]) IN
  IF r.ok THEN Result("ok", Later(r.t, BlocksIn(t.idx, DOMAIN t.idx))) ELSE Result("jfull", r.t)
RunSide(t) == Result("ok", IF t.q = <<>> THEN FillQueue(t) ELSE IF t.app THEN [SyncRing(t) EXCEPT !.app = FALSE] ELSE GcOnce(GcOnce(t).t).t)

\* a store on the image d
Opened(d) ==
  LET r == Parse(d.ring, d.head, 60)
      f == Replay(Empty, r.l) IN
  [dur |-> d, cur |-> d, pw |-> <<>>, bo |-> 0, bx |-> <<>>, bd |-> FALSE, uh |-> d.head, head |-> d.head,
   tail |-> r.e, idx |-> f, q |-> <<>>, free |-> 0..NBlocks - 1 \ BlocksIn(f, DOMAIN f), pend |-> {},
   app |-> FALSE, syn |-> FALSE, trail |-> <<>>, recs |-> 0]
New == [ring |-> [a \in 0..Sectors - 1 |-> IF a = 0 THEN {<<0, 5, [k |-> "end"]>>} ELSE {}], head |-> 0, blk |-> [b \in 0..NBlocks - 1 |-> 0]]

\* what a reopened image contains: the entries of a dump
RECURSIVE Last(_, _, _)
Last(l, x, k) == IF l[k].x.k \in {"put", "emb"} /\ l[k].x.i = x THEN l[k].x ELSE Last(l, x, k - 1)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o Sorted(S \ {MinOf(S)})
DumpOf(d) ==
  LET r == Parse(d.ring, d.head, 60)
      f == Replay(Empty, r.l)
      o == Sorted(DOMAIN f)
      one(x) == LET y == Last(r.l, x, Len(r.l)) IN
        IF y.k = "emb" THEN [i |-> x, r |-> "ok", n |-> y.n, s |-> y.n, sg |-> <<<<y.v>>>>]
        ELSE IF d.blk[y.b] # 0 THEN [i |-> x, r |-> "ok", n |-> y.n, s |-> 512, sg |-> <<<<d.blk[y.b]>>>>]
        ELSE [i |-> x, r |-> "ok", n |-> -1, s |-> 512, sg |-> <<>>] IN
  [k \in DOMAIN o |-> one(o[k])]
Readable(d) == Parse(d.ring, d.head, 60).e # -1

(***************************************************************************)
(* the two levels in turn                                                   *)
(***************************************************************************)
IInit ==
  /\ Init([cuts |-> <<0>>, cap |-> NBlocks, ring |-> Cap, jsec |-> Sectors + 1, auto |-> TRUE, tot |-> 0, num |-> 0])
  /\ s = Opened(New) /\ pts = <<>> /\ todo = <<>> /\ h = <<>>
Begin == s
Do(op, ev, res) ==

  /\ s' = [res.t EXCEPT !.trail = <<>>, !.syn = FALSE, !.recs = 0]
  /\ pts' = res.t.trail
  /\ todo' = <<[ev EXCEPT !.r = res.r], res.t.syn, res.t.recs>>
  /\ h' = Append(h, [at |-> <<res.t.uh, res.t.head, res.t.tail>>] @@ op)
  /\ UNCHANGED vars
Has(x) == x \in Letters
Ready == todo = <<>> /\ Len(h) < Depth
DoPut == Has("put") /\ \E i \in MIds : Do([o |-> "put", i |-> i, n |-> 100], [e |-> "put", i |-> i, n |-> 100, t |-> Version, r |-> "", up |-> i \in Ids, flt |-> FALSE], RunPut(Begin, i))
DoEmbed == Has("pute") /\ \E i \in MIds, n \in EmbSizes :
  Do([o |-> "pute", i |-> i, n |-> n], [e |-> "pute", i |-> i, n |-> n, t |-> Version, r |-> "", up |-> i \in Ids, flt |-> FALSE], RunEmbed(Begin, i, n))
DoDelete == Has("del") /\ \E i \in MIds :
  Do([o |-> "del", i |-> i], [e |-> "del", i |-> i, r |-> "", up |-> i \in Ids, sz |-> IF i \in Ids THEN OnDisk(Obj(i)) ELSE 0, flt |-> FALSE], RunDelete(Begin, i))
DoRange == Has("delr") /\ Do([o |-> "delr", a |-> 0, b |-> 9], [e |-> "delr", a |-> 0, b |-> 9, r |-> "", flt |-> FALSE], RunRange(Begin))
DoFlush == Has("flush") /\ Do([o |-> "flush"], [e |-> "flush", r |-> "", flt |-> FALSE], Result("ok", FlushBuf(Begin)))
DoSync == Has("sync") /\ Do([o |-> "sync"], [e |-> "sync", r |-> "", flt |-> FALSE], Result("ok", StoreSync(Begin)))
DoGc == Has("gc") /\ Do([o |-> "gc"], [e |-> "gc", r |-> "", flt |-> FALSE], Result("ok", GcAll(Begin)))
DoSide == Has("side") /\ Do([o |-> "side", n |-> 2], [e |-> "side", r |-> "", flt |-> FALSE], RunSide(Begin))
L1 == Ready /\ (DoPut \/ DoEmbed \/ DoDelete \/ DoRange \/ DoFlush \/ DoSync \/ DoGc \/ DoSide)
\* the images a crash may leave
SubsOf(n) == IF n <= 4 THEN SUBSET (1..n)
             ELSE {1..k : k \in 0..n} \cup {1..n \ {k} : k \in 1..n} \cup {{k} : k \in 1..n} \cup {1..n \ {k, k + 1} : k \in 1..n - 1}
Pick(pw, S) == LET k == Sorted(S) IN [n \in DOMAIN k |-> pw[k[n]]]
ImagesOf(pt) == {ApplyAll(pt.dur, Pick(pt.pw, S)) : S \in SubsOf(Len(pt.pw))}
KillImage(pt) == ApplyAll(pt.dur, pt.pw)
Here == [dur |-> s.dur, pw |-> s.pw]
Still == todo = <<>>
Survives(d, kill, mid) == LET x == DumpOf(d) IN Readable(d) /\ IF kill THEN KillOk(x, Len(x), mid) ELSE PowerOk(x, Len(x), mid)
KillSafe == Still => Survives(KillImage(Here), TRUE, FALSE) /\ \A k \in DOMAIN pts : Survives(KillImage(pts[k]), TRUE, TRUE)
PowerSafe == Still =>
             /\ \A d \in ImagesOf(Here) : Survives(d, FALSE, FALSE)
             /\ \A k \in DOMAIN pts : \A d \in ImagesOf(pts[k]) : Survives(d, FALSE, TRUE)
\* Store follows: first a sync inside of the operation, then the operation
L0 == todo # <<>> /\ UNCHANGED <<s, pts, h>> /\
  IF todo[2] THEN AutoSync /\ todo' = <<todo[1], FALSE, todo[3]>>
  ELSE Act(todo[1]) /\ todo' = <<>> /\ (todo[1].e # "sync" => Len(hist') = Len(hist) + todo[3])
Crash ==
  /\ Ready /\ Crashes # {} /\ (IF h = <<>> THEN TRUE ELSE h[Len(h)].o # "crash") /\ pts' = <<>> /\ todo' = <<>>
  /\ \/ /\ "kill" \in Crashes
        /\ LET d == KillImage(Here) IN Readable(d) /\ s' = Opened(d) /\ Kill(DumpOf(d), Len(DumpOf(d)))
        /\ h' = Append(h, [o |-> "crash", k |-> "kill"])
     \/ /\ "power" \in Crashes
        /\ \E d \in ImagesOf(Here) : Readable(d) /\ s' = Opened(d) /\ PowerLoss(DumpOf(d), Len(DumpOf(d)))
        /\ h' = Append(h, [o |-> "crash", k |-> "power"])
Stop == todo = <<>> /\ Len(h) = Depth /\ UNCHANGED <<vars, ivars>>
INext == L1 \/ L0 \/ Crash \/ Stop
ISpec == IInit /\ [][INext]_<<vars, ivars>>

(***************************************************************************)
(* what has to hold between operations                                      *)
(***************************************************************************)
\* the index tells what is stored
Reads == Still => LET d == FlushBuf(s).cur  x == DumpOf(d) IN
  /\ Readable(d) /\ DumpOk(x, Len(x))
  /\ Replay(Empty, Parse(d.ring, d.head, 60).l) = s.idx
\* each block is free, waits to be free, or belongs to one lump
Owned == LET U == BlocksIn(s.idx, DOMAIN s.idx) IN
  /\ s.free \cap s.pend = {} /\ U \cap (s.free \cup s.pend) = {} /\ U \cup s.free \cup s.pend = 0..NBlocks - 1
  /\ Cardinality(U) = Cardinality({x \in DOMAIN s.idx : s.idx[x].k = "put"})
TypeOK == s.tail \in 0..Cap /\ s.uh \in 0..Cap /\ s.head \in 0..Cap
\* full GC leaves the records of the present lumps only (if there is room for their copies)
Compact == (Still /\ h # <<>> /\ h[Len(h)].o = "gc" /\ 4 * (LiveBytes + 1024) <= Cap) =>
  LET l == Parse(FlushBuf(s).cur.ring, s.uh, 60).l IN Len(l) = Cardinality(DOMAIN s.idx)
View == <<open, [k \in DOMAIN hist |-> hist[k]], c, fl, dirty, bad, asyn, autogc, prev, s, pts, todo, Len(h)>>
\* scripts for the real store: one per transition, or whole behaviours
Note == (todo' = <<>> \/ todo # <<>> \/ Len(h') < 2 \/ PrintT("SCRIPT " \o ToJson(h')))
Whole1 == ~(Still /\ Len(h) = Depth) \/ PrintT("SCRIPT " \o ToJson(h))
=============================================================================
