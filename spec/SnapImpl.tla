------------------------------ MODULE SnapImpl ------------------------------
(* How the snapshot works: before a region of the device is overwritten for   *)
(* the first time it is saved in the backing file, first the entry that says  *)
(* which region it is, then its bytes; a reader takes a region from the       *)
(* backing file if it is there, else from the device.  Every step can be the  *)
(* last of the process.  It has to keep what SnapDev says: the snapshot holds *)
(* what the device held.                                                      *)
(* Without: the set of the decisions left out, to see that each is needed.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS R,        \* regions of the device
          MaxOps,
          Writers,  \* processes that write
          Without, Emit
VARIABLES org,      \* region -> content
          has,      \* is there a backing file
          ent, dat, \* entries and regions in it
          tree,     \* region -> number of its copy, in memory
          shot,     \* what the snapshot has to hold
          w,        \* writer -> [st, lo, hi, r]
          rd,       \* [st, r]: a reader between looking and reading
          bad,      \* a reader got something else
          t, h
ivars == <<org, has, ent, dat, tree, shot, w, rd, bad, t, h>>
Regions == 1..R
Idle == [st |-> "idle", lo |-> 0, hi |-> 0, r |-> 0]
Init ==
  /\ org = [r \in Regions |-> r] /\ has = FALSE /\ ent = <<>> /\ dat = <<>> /\ tree = <<>> /\ shot = <<>>
  /\ w = [p \in Writers |-> Idle] /\ rd = [st |-> "idle", r |-> 0] /\ bad = FALSE /\ t = 1 /\ h = <<>>
In(d) == d \notin Without
Op(o, s, n, k) == [o |-> o, s |-> s, n |-> n, k |-> k]
Quiet == \A p \in Writers : w[p].st = "idle"
More == Len(h) < MaxOps
\* the lock of the device: one writer and no reader at a time
Free(p) == (In("writelock") => Quiet) /\ (In("readlock") => rd.st = "idle")

Begin(p) == /\ w[p].st = "idle" /\ Free(p) /\ More
            /\ \E lo \in Regions : \E hi \in lo..R :
                 w' = [w EXCEPT ![p] = [st |-> "check", lo |-> lo, hi |-> hi, r |-> lo]] /\ h' = Append(h, Op("write", lo, hi - lo + 1, 0))
            /\ UNCHANGED <<org, has, ent, dat, tree, shot, rd, bad, t>>
To(p, st, r) == w' = [w EXCEPT ![p].st = st, ![p].r = r]
Same == UNCHANGED <<org, has, ent, dat, tree, shot, rd, bad, t, h>>
Next1(p) == IF w[p].r = w[p].hi \/ ~In("all") THEN To(p, IF In("before") THEN "org" ELSE "end", 0) ELSE To(p, "check", w[p].r + 1)
Check(p) == /\ w[p].st = "check"
            /\ IF ~has \/ w[p].r \in DOMAIN tree THEN Next1(p) /\ Same
               ELSE To(p, IF In("entryfirst") THEN "entry" ELSE "data", w[p].r) /\ Same
Entry(p) == /\ w[p].st = "entry" /\ ent' = Append(ent, w[p].r)
            /\ IF In("entryfirst") THEN To(p, "data", w[p].r) /\ UNCHANGED tree
               ELSE Next1(p) /\ tree' = (w[p].r :> Len(dat)) @@ tree
            /\ UNCHANGED <<org, has, dat, shot, rd, bad, t, h>>
Data(p) == /\ w[p].st = "data" /\ dat' = Append(dat, org[w[p].r])
           /\ IF In("entryfirst") THEN Next1(p) /\ tree' = (w[p].r :> Len(dat')) @@ tree
              ELSE To(p, "entry", w[p].r) /\ UNCHANGED tree
           /\ UNCHANGED <<org, has, ent, shot, rd, bad, t, h>>
Org(p) == /\ w[p].st = "org" /\ t' = t + 1
          /\ org' = [r \in Regions |-> IF r >= w[p].lo /\ r <= w[p].hi THEN 10 * t' + r ELSE org[r]]
          /\ w' = [w EXCEPT ![p] = Idle]
          /\ UNCHANGED <<has, ent, dat, tree, shot, rd, bad, h>>
\* without "before": the device first, then the saving
Early(p) == /\ ~In("before") /\ w[p].st = "check" /\ w[p].r = w[p].lo /\ t' = t + 1
            /\ org' = [r \in Regions |-> IF r >= w[p].lo /\ r <= w[p].hi THEN 10 * t' + r ELSE org[r]]
            /\ UNCHANGED <<has, ent, dat, tree, shot, w, rd, bad, h>>
End(p) == w[p].st = "end" /\ w' = [w EXCEPT ![p] = Idle] /\ Same
Create == /\ Quiet /\ More /\ rd.st = "idle" /\ h' = Append(h, Op("snapc", 0, 0, 0))
          /\ IF has THEN UNCHANGED <<has, shot, ent, dat, tree>> ELSE has' = TRUE /\ shot' = org /\ ent' = <<>> /\ dat' = <<>> /\ tree' = <<>>
          /\ UNCHANGED <<org, w, rd, bad, t>>
Delete == /\ Quiet /\ More /\ rd.st = "idle" /\ has /\ h' = Append(h, Op("snapd", 0, 0, 0))
          /\ has' = FALSE /\ shot' = <<>> /\ ent' = <<>> /\ dat' = <<>> /\ tree' = <<>> /\ UNCHANGED <<org, w, rd, bad, t>>
\* what a new process takes from the backing file: as many entries as there are complete regions
Found == IF In("complete") THEN Len(dat) ELSE Len(ent)
EntryAt(k) == IF k <= Len(ent) THEN ent[k] ELSE 0
Refound == [r \in {EntryAt(k) : k \in 1..Found} |-> CHOOSE k \in 1..Found : EntryAt(k) = r /\ \A j \in 1..Found : EntryAt(j) = r => j <= k]
Kill == /\ More /\ has
        /\ tree' = Refound /\ ent' = SubSeq(ent, 1, IF Found < Len(ent) THEN Found ELSE Len(ent))
        /\ w' = [p \in Writers |-> Idle] /\ rd' = [st |-> "idle", r |-> 0]
        /\ h' = (IF Quiet THEN Append(h, Op("reopen", 0, 0, 0)) ELSE Append(h, Op("crash", 0, 0, Len(ent) * 3 + Len(dat))))
        /\ UNCHANGED <<org, has, dat, shot, bad, t>>
Copy(k) == IF k <= Len(dat) THEN dat[k] ELSE 0
Img(tr) == [r \in Regions |-> IF r \in DOMAIN tr THEN Copy(tr[r]) ELSE org[r]]
\* a reader looks and reads in one step under the lock
Look == /\ rd.st = "idle" /\ has /\ \E r \in Regions :
           IF r \in DOMAIN tree \/ In("readlock")
           THEN bad' = (bad \/ Img(tree)[r] # shot[r]) /\ UNCHANGED rd
           ELSE rd' = [st |-> "org", r |-> r] /\ UNCHANGED bad
        /\ (In("readlock") => Quiet)
        /\ UNCHANGED <<org, has, ent, dat, tree, shot, w, t, h>>
ReadOrg == /\ rd.st = "org" /\ rd' = [st |-> "idle", r |-> 0] /\ bad' = (bad \/ org[rd.r] # shot[rd.r])
           /\ UNCHANGED <<org, has, ent, dat, tree, shot, w, t, h>>
Next == \/ \E p \in Writers : Begin(p) \/ Check(p) \/ Entry(p) \/ Data(p) \/ Org(p) \/ Early(p) \/ End(p)
        \/ Create \/ Delete \/ Kill \/ Look \/ ReadOrg
Spec == Init /\ [][Next]_ivars

\* the snapshot is there in every state, for this process and for one that starts now
Reads == ~bad
Mine == (has /\ Quiet) => Img(tree) = shot
KillSafe == has => Img(Refound) = shot
Once == Cardinality({ent[k] : k \in DOMAIN ent}) = Len(ent)
Ended == Quiet' /\ (~Quiet \/ h' # h)
Note == Emit => (Ended => PrintT("SCRIPT " \o ToJson(h')))
\* no two contents are the same, so all that counts is whether they are those of the snapshot
View == <<[r \in Regions |-> has /\ org[r] = shot[r]], has, ent, [k \in DOMAIN dat |-> {r \in Regions : has /\ dat[k] = shot[r]}], tree, w, rd, bad, Len(h)>>
=============================================================================
