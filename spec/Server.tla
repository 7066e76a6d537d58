------------------------------- MODULE Server -------------------------------
(* The HTTP server: uploads, downloads and takings of lumps by many clients, *)
(* snapshots and backups while they go on, a shutdown or a power failure at  *)
(* any time.  The lumps are those of Store; an acknowledged upload is safe.  *)
EXTENDS StoreAct
VARIABLES
  du,     \* hist[du] and everything before it survives a power failure
  sn      \* the snapshot: <<>> or [open |-> it may not be made yet, good |-> the store was what will be backed up since the request]
xvars == <<du, sn>>
XInit == du = 1 /\ sn = <<>>
XSame == UNCHANGED xvars
Failed(r) == r \in {"400", "404", "405", "409", "500"}

(* requests by their effect *)
Upload(i, t, n) == StoreBlocks(i, [emb |-> FALSE, n |-> n, seg |-> Fill(t, n)], "ok", FALSE)
TakeMin == Ids # {} /\ NoNew /\ Become(RemoveMaps({MinOf(Ids)}))
Serve(e) ==
  CASE e.e = "hput" -> (e.r = "200" /\ Upload(e.i, e.t, e.n)) \/ (e.r = "conn" /\ (Nop \/ Upload(e.i, e.t, e.n)))
    [] e.e = "hputa" -> e.r = "200" /\ e.i \notin Ids /\ Upload(e.i, e.t, e.n)     \* a new id
    [] e.e = "hget" -> /\ \/ e.r = "200" /\ B(GetOk(e.i, "ok", e.n, e.sg, FALSE))
                          \/ e.r \in {"404", "500"} /\ e.i \notin Ids
                          \/ e.r = "conn"
                       /\ Nop
    [] e.e = "htake" -> \/ e.r = "200" /\ TakeMin /\ B(GetOk(MinOf(Ids), "ok", e.n, e.sg, FALSE))
                        \/ e.r = "404" /\ Ids = {} /\ Nop
                        \/ e.r = "conn" /\ (Nop \/ TakeMin)
    [] e.e = "husage" -> e.r \in {"200", "conn"} /\ Nop
    [] e.e = "hlook" -> e.r \in {"200", "conn"} /\ Nop
    [] e.e = "hbad" -> Failed(e.r) /\ Nop
    [] OTHER -> FALSE

(* snapshots *)
Snaps == {"screate", "sbackup"}
\* g: the store was what will be backed up, at some time since the request; a backup takes the snapshot that is there,
\* or one made after the request
Snap(e, g) ==
  CASE e.e = "screate" -> (e.r = "200" /\ sn = <<>> /\ sn' = <<[open |-> FALSE, good |-> g]>>) \/ (e.r = "500" /\ sn # <<>> /\ UNCHANGED sn)
    [] e.e = "sbackup" -> \/ e.r = "200" /\ sn' = (IF sn = <<>> THEN <<[open |-> TRUE, good |-> g]>> ELSE sn)
                          \/ e.r = "201" /\ UNCHANGED sn
    [] OTHER -> FALSE
\* the backup file, opened as a store: the store at one moment of the snapshot
Looks(b, map, v) == Shape(b.d, b.cnt) /\ DumpIs(b.d, map, v, {})
Watch(new) == sn' = (IF sn # <<>> /\ sn[1].open THEN <<[open |-> TRUE, good |-> sn[1].good \/ new]>> ELSE sn)

(* power failures: P are the requests under way *)
Since == du..Len(hist)
New(o) == \A k \in 1..du : o \notin Range(hist[k])
SafeOk(d, cnt, P) ==
  /\ Shape(d, cnt)
  /\ \A k \in DOMAIN d : LET i == d[k].i IN
       \/ \E j \in Since : i \in DOMAIN hist[j] /\ (EntryIs(d[k], c, hist[j][i]) \/ (New(hist[j][i]) /\ d[k].s = OnDisk(c[hist[j][i]])))
       \/ \E p \in P : p.e \in {"hput", "hputa"} /\ p.i = i /\ d[k].s = 512 * Blocks(p.n)
  /\ \A x \in UNION {DOMAIN hist[j] : j \in Since} :
       x \in Dumped(d) \/ (\E j \in Since : x \notin DOMAIN hist[j]) \/ (\E p \in P : p.e = "htake")
=============================================================================
