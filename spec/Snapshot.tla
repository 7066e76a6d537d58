------------------------------ MODULE Snapshot ------------------------------
(***************************************************************************)
(* Snapshots of a store.  A moment is a number of device writes of the      *)
(* store file: moment k is its image after the first k of them.  A snapshot *)
(* shows the image of one moment between the call and the return of its     *)
(* creation, for ever, to every reader: cand are the moments that it can    *)
(* still be after what the readers have seen.  A copy made from it holds    *)
(* the lumps that the store had when it was created.                        *)
(*                                                                          *)
(* A reader is a position in the image.  Reads are reported as records      *)
(* [p (position), l (asked for), n (got), e (end of file), er (error),      *)
(*  mt (the moments whose image has these bytes there, as intervals)].      *)
(***************************************************************************)
EXTENDS StoreAct
VARIABLES
  shots,  \* snapshots: number -> [cand, sz (sizes of the file: <<from moment, size>>), map]
  cur,    \* the current one, 0: none
  pcur,   \* the one before the current operation
  rds     \* open readers: name -> [g (snapshot), pos]
svars == <<shots, cur, pcur, rds>>

SInit == shots = Empty /\ cur = 0 /\ pcur = 0 /\ rds = Empty
\* no change of the snapshots
SSame == UNCHANGED <<shots, cur, rds>> /\ pcur' = cur

SizeAt(sz, k) == LET x == MaxOf({j \in DOMAIN sz : sz[j][1] <= k}) IN sz[x][2]
In(mt, k) == \E j \in DOMAIN mt : mt[j][1] <= k /\ k <= mt[j][2]

\* a read of a file of size s: some bytes, or the end of the file only at its end
Length(s, r) ==
  /\ r.n <= r.l /\ r.p + r.n <= s
  /\ r.n = 0 => r.l = 0 \/ (r.e /\ r.p = s)
  /\ r.e => r.p + r.n = s
\* the moments of g that explain a read
After(g, r) == {k \in g.cand : r.er \/ (In(r.mt, k) /\ Length(SizeAt(g.sz, k), r))}
RECURSIVE AfterAll(_, _, _)
AfterAll(g, rs, k) == IF k > Len(rs) THEN g ELSE AfterAll([g EXCEPT !.cand = After(g, rs[k])], rs, k + 1)
\* the reads follow each other from position p
RECURSIVE From(_, _, _)
From(p, rs, k) == k > Len(rs) \/ (rs[k].p = p /\ From(p + rs[k].n, rs, k + 1))

New(e) == [cand |-> e.k0..e.k1, sz |-> e.sz, map |-> [i \in Ids |-> Obj(i)]]
Fresh == 1 + Cardinality(DOMAIN shots)
\* the snapshot that GetSnapshotReader uses: the current one, or a new one
Used(e) == IF cur = 0 THEN Fresh ELSE cur
UsedShot(e) == IF cur = 0 THEN New(e) ELSE shots[cur]

\* the copy of the store holds the lumps of the snapshot
CopyIs(d, cnt, map) ==
  /\ Shape(d, cnt)
  /\ Len(d) = Cardinality(DOMAIN map)
  /\ \A k \in DOMAIN d :
       /\ d[k].i \in DOMAIN map
       /\ LET o == map[d[k].i] IN d[k].r = "ok" /\ d[k].n = o.n /\ d[k].s = OnDisk(o) /\ Same(d[k].sg, o.seg)

Create(e) ==
  IF cur # 0 THEN e.r = "err" /\ UNCHANGED <<shots, cur, rds>>
  ELSE e.r = "ok" /\ shots' = (Fresh :> New(e)) @@ shots /\ cur' = Fresh /\ UNCHANGED rds
\* a creation that cannot make its file: an error, and nothing changes; with a snapshot there a reader needs no file
CreateFails(e) == e.r = (IF e.rd /\ cur # 0 THEN "ok" ELSE "err") /\ UNCHANGED <<shots, cur, rds>>
Remove(e) == e.r = "ok" /\ cur' = 0 /\ UNCHANGED <<shots, rds>>
\* a new reader and its first reads; may: the snapshot may be deleted meanwhile
ReadNew(e, may) ==
  LET g == AfterAll(UsedShot(e), e.rs, 1) IN
  /\ e.r = "ok"
  /\ B(From(0, e.rs, 1)) /\ B(g.cand # {})
  /\ B(\A k \in DOMAIN e.rs : e.rs[k].er => may)
  /\ shots' = (Used(e) :> g) @@ shots /\ cur' = Used(e) /\ UNCHANGED rds
Copy(e) == ReadNew(e, FALSE) /\ B(CopyIs(e.d, e.cnt, UsedShot(e).map))
OpenReader(e) ==
  /\ e.r = "ok"
  /\ shots' = (Used(e) :> UsedShot(e)) @@ shots /\ cur' = Used(e)
  /\ rds' = (e.s :> [g |-> Used(e), pos |-> 0]) @@ rds
\* a reader of a snapshot that was deleted may fail
Read(e) ==
  LET d == rds[e.s]  r == e.rs[1]  g == AfterAll(shots[d.g], e.rs, 1) IN
  /\ e.r = "ok" /\ r.p = d.pos /\ B(g.cand # {})
  /\ B(r.er => d.g # cur)
  /\ shots' = (d.g :> g) @@ shots
  /\ rds' = [rds EXCEPT ![e.s].pos = @ + r.n]
  /\ UNCHANGED cur
Seek(e) ==
  LET d == rds[e.s]
      w == IF e.wh = 1 THEN d.pos + e.off ELSE e.off
      g == shots[d.g]
      fits == {k \in g.cand : w >= 0 /\ w <= SizeAt(g.sz, k)} IN
  /\ \/ e.r = "ok" /\ e.n = w /\ fits # {} /\ shots' = [shots EXCEPT ![d.g].cand = fits] /\ rds' = [rds EXCEPT ![e.s].pos = w]
     \/ e.r = "inval" /\ g.cand \ fits # {} /\ shots' = [shots EXCEPT ![d.g].cand = @ \ fits] /\ UNCHANGED rds
  /\ UNCHANGED cur
\* the backing files of the store
Files(e) == e.n = (IF cur = 0 THEN 0 ELSE 1) /\ UNCHANGED <<shots, cur, rds>>
\* another store in the same directory: its files are as it left them, and so is its snapshot
Near(e) == e.r = "ok" /\ e.look = "ok" /\ e.img = "ok" /\ UNCHANGED <<shots, cur, rds>>

SnapOps == {"snapc", "snapf", "snapd", "snapr", "copy", "rdopen", "rdread", "rdseek", "files", "near"}
SnapAct(e) ==
  /\ e.e \in SnapOps
  /\ e.e \notin {"rdread", "rdseek", "files", "near"} => open
  /\ pcur' = cur /\ Nop
  /\ CASE e.e = "snapc" -> Create(e)
       [] e.e = "snapf" -> CreateFails(e)
       [] e.e = "snapd" -> Remove(e)
       [] e.e = "snapr" -> ReadNew(e, "ph" \in DOMAIN e /\ e.may)
       [] e.e = "copy" -> Copy(e)
       [] e.e = "rdopen" -> OpenReader(e)
       [] e.e = "rdread" -> Read(e)
       [] e.e = "rdseek" -> Seek(e)
       [] e.e = "files" -> Files(e)
       [] e.e = "near" -> Near(e)

(***************************************************************************)
(* the snapshot found beside an image of the store that a killed process    *)
(* left: h = [has, mt and n (what it reads), mt2 and n2 (what it reads      *)
(* after more writes), gone (it was deleted for good), err]                 *)
(***************************************************************************)
Shows(h, g) ==
  \E k \in g.cand : /\ In(h.mt, k) /\ h.n = SizeAt(g.sz, k)
                    /\ In(h.mt2, k) /\ h.n2 = SizeAt(g.sz, k)
FoundOk(h, mid) ==
  /\ h.err = "" /\ h.gone
  /\ \/ ~h.has /\ (cur = 0 \/ (mid /\ pcur = 0))
     \/ h.has /\ cur # 0 /\ Shows(h, shots[cur])
     \/ h.has /\ mid /\ pcur # 0 /\ Shows(h, shots[pcur])
=============================================================================
