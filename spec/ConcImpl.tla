------------------------------ MODULE ConcImpl ------------------------------
(* How operations of the store that run at the same time keep apart: the lock *)
(* of the index (a reader/writer lock; a waiting writer keeps new readers     *)
(* out), that of the journal, blocks that change hands only after a sync, and *)
(* a store that may be closed at any moment.  Steps are what no lock makes    *)
(* atomic.  Reads have to return what the lump was at some moment of the      *)
(* read, changes have to take effect in one step, and a process that is       *)
(* killed at any moment must leave lumps whose blocks are theirs.             *)
(* Without: the set of the decisions left out, to see that each is needed.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Ids, B, MaxOps, Ops, Without, Emit
VARIABLES index,  \* id -> block or 0
          con,    \* block -> [put, a, b]: who has put it, and its two parts
          free, pend,
          log,    \* records since the last sync
          disk,   \* id -> [b, put]: what the records before make of the index
          opened, snap,
          iw, ir, wait, jr,  \* the locks
          pc, loc,
          abs,    \* id -> the two parts that a user sees, <<>> if there are none
          seen,   \* thread -> what its lump has been since the call
          bad,    \* what went wrong
          n, h    \* operations called, and the schedule
cvars == <<index, con, free, pend, log, disk, opened, snap, iw, ir, wait, jr, pc, loc, abs, seen, bad, n, h>>
Blocks == 1..B
None == 0
In(d) == d \notin Without
L0 == [o |-> "", i |-> 0, t |-> 0, b |-> 0, old |-> 0, a |-> 0, new |-> FALSE]
Init ==
  /\ index = [i \in Ids |-> 0] /\ con = [b \in Blocks |-> [put |-> 0, a |-> 0, b |-> 0]] /\ free = Blocks /\ pend = {}
  /\ log = <<>> /\ disk = [i \in Ids |-> [b |-> 0, put |-> 0]] /\ opened = TRUE /\ snap = FALSE
  /\ iw = None /\ ir = {} /\ wait = {} /\ jr = None
  /\ pc = [p \in Threads |-> "idle"] /\ loc = [p \in Threads |-> L0]
  /\ abs = [i \in Ids |-> <<>>] /\ seen = [p \in Threads |-> {}] /\ bad = {} /\ n = 0 /\ h = <<>>

Turn(p) == h' = IF Emit THEN Append(h, [o |-> "turn", th |-> p, i |-> 0]) ELSE h
NoTurn == UNCHANGED h
Locks == <<iw, ir, wait, jr>>
Data == <<index, con, free, pend, log, disk, opened, snap, abs, seen, bad>>
To(p, s) == pc' = [pc EXCEPT ![p] = s]
Keep(p, l) == loc' = [loc EXCEPT ![p] = l]

\* the locks
CanW == iw = None /\ ir = {}
CanR == iw = None /\ wait = {}
TakeW(p) == iw' = p /\ wait' = wait \ {p} /\ UNCHANGED <<ir, jr>>
TakeR(p) == ir' = ir \cup {p} /\ UNCHANGED <<iw, wait, jr>>
TakeJ(p) == jr' = p /\ UNCHANGED <<iw, ir, wait>>
FreeAll(p) == /\ iw' = (IF iw = p THEN None ELSE iw) /\ ir' = ir \ {p} /\ jr' = (IF jr = p THEN None ELSE jr) /\ UNCHANGED wait
LockW(p, from, to) == /\ pc[p] = from /\ (IF CanW THEN TakeW(p) /\ To(p, to) ELSE p \notin wait /\ wait' = wait \cup {p} /\ UNCHANGED <<iw, ir, jr, pc>>)
                      /\ UNCHANGED <<Data, loc, n>> /\ (IF p \in wait THEN NoTurn ELSE Turn(p))
LockR(p, from, to) == pc[p] = from /\ CanR /\ TakeR(p) /\ To(p, to) /\ UNCHANGED <<Data, loc, n>> /\ Turn(p)
LockJ(p, from, to) == pc[p] = from /\ jr = None /\ TakeJ(p) /\ To(p, to) /\ UNCHANGED <<Data, loc, n>> /\ Turn(p)

\* a user sees a change
Abs(i, v) == /\ abs' = [abs EXCEPT ![i] = v]
             /\ seen' = [q \in Threads |-> IF loc[q].i = i THEN seen[q] \cup {v} ELSE seen[q]]
SameAbs == UNCHANGED <<abs, seen>>
Wrong(w) == bad' = bad \cup w
Device(w) == IF opened THEN {} ELSE {w}  \* closed devices are not used
Idle(p) == To(p, "idle") /\ Keep(p, L0)

Call(p) ==
  /\ pc[p] = "idle" /\ n < MaxOps /\ n' = n + 1
  /\ \E o \in Ops : \E i \in Ids :
       /\ o \in {"sync", "close", "snapc", "side"} => i = 1
       /\ To(p, o) /\ Keep(p, [L0 EXCEPT !.o = o, !.i = i, !.t = n + 1])
       /\ seen' = [seen EXCEPT ![p] = {abs[i]}]
       /\ h' = IF Emit THEN Append(h, [o |-> o, th |-> p, i |-> i]) ELSE h
  /\ UNCHANGED <<index, con, free, pend, log, disk, opened, snap, abs, bad, iw, ir, wait, jr>>
Least(s) == CHOOSE x \in s : \A y \in s : x <= y

\* ---- put: data first, then the record
PutLock(p) == IF In("writelock") THEN LockR(p, "put", "p1") ELSE pc[p] = "put" /\ To(p, "p1") /\ UNCHANGED <<Data, Locks, loc, n>> /\ NoTurn
PutAlloc(p) ==
  /\ pc[p] = "p1" /\ UNCHANGED n
  /\ IF ~opened THEN FreeAll(p) /\ Idle(p) /\ UNCHANGED Data /\ NoTurn
     ELSE LET old == index[loc[p].i] IN
          IF free = {} THEN FreeAll(p) /\ To(p, "p3") /\ Keep(p, [loc[p] EXCEPT !.b = 0, !.old = old]) /\ UNCHANGED Data /\ NoTurn
          ELSE LET b == Least(free) IN /\ free' = free \ {b} /\ To(p, "p2") /\ Keep(p, [loc[p] EXCEPT !.b = b, !.old = old])
                               /\ UNCHANGED <<Locks, index, con, pend, log, disk, opened, snap, abs, seen, bad>> /\ NoTurn
New(p) == [put |-> loc[p].t, a |-> IF loc[p].new THEN 0 ELSE loc[p].t, b |-> loc[p].t]
PutWrite(p) ==
  /\ pc[p] = "p2" /\ con' = [con EXCEPT ![loc[p].b] = New(p)] /\ Wrong(Device("put")) /\ Turn(p)
  /\ FreeAll(p) /\ To(p, "p3") /\ UNCHANGED <<index, free, pend, log, disk, opened, snap, abs, seen, loc, n>>
Rec(i, b, t) == [i |-> i, b |-> b, put |-> t]
RECURSIVE Apply(_, _)
Apply(d, l) == IF l = <<>> THEN d ELSE Apply([d EXCEPT ![Head(l).i] = [b |-> Head(l).b, put |-> Head(l).put]], Tail(l))
\* what a released block becomes
Later(b, f, q) == IF b = 0 THEN <<f, q>> ELSE IF In("hold") THEN <<f, q \cup {b}>> ELSE <<f \cup {b}, q>>
PutRecord(p) ==
  /\ pc[p] = "p5" /\ FreeAll(p) /\ UNCHANGED <<opened, snap, n>> /\ NoTurn
  /\ LET i == loc[p].i  now == index[i]  old == IF In("lookup") THEN now ELSE loc[p].old  b == loc[p].b
         v == <<New(p).a, New(p).b>>
         lost == (IF (old = 0) # (abs[i] = <<>>) THEN {"updated"} ELSE {}) \cup Device("record") \cup (IF loc[p].new /\ abs[i] # <<>> THEN {"overwritten"} ELSE {}) IN
     IF ~opened /\ In("again") THEN Idle(p) /\ UNCHANGED Data
     ELSE IF loc[p].new /\ now # 0 /\ In("onlynew")
     THEN /\ To(p, "puto") /\ Keep(p, [loc[p] EXCEPT !.b = 0]) /\ free' = free \cup ({b} \ {0})
          /\ UNCHANGED <<index, con, pend, log, disk, abs, seen, bad>>
     ELSE IF b # 0
     THEN LET fq == Later(old, free, pend) IN
          /\ index' = [index EXCEPT ![i] = b] /\ log' = Append(log, Rec(i, b, loc[p].t)) /\ free' = fq[1] /\ pend' = fq[2]
          /\ Abs(i, v) /\ Wrong(lost) /\ Idle(p) /\ UNCHANGED <<con, disk>>
     ELSE \* the sync that makes room, the space of the old data as the last resort
          LET drop == pend = {} /\ old # 0
              room == pend \cup (IF drop THEN {old} ELSE {})
              l2 == IF drop THEN Append(log, Rec(i, 0, 0)) ELSE log
              o2 == IF drop THEN 0 ELSE old IN
          IF free \cup room = {} THEN Idle(p) /\ UNCHANGED Data
          ELSE LET c == Least(free \cup room) IN
               LET fq == Later(o2, (free \cup room) \ {c}, {}) IN
               /\ disk' = Apply(disk, l2) /\ log' = <<Rec(i, c, loc[p].t)>> /\ index' = [index EXCEPT ![i] = c]
               /\ con' = [con EXCEPT ![c] = New(p)] /\ free' = fq[1] /\ pend' = fq[2]
               /\ Abs(i, v) /\ Wrong(lost) /\ Idle(p)

\* ---- get
GetLook(p) ==
  /\ pc[p] = "g1" /\ UNCHANGED <<index, con, free, pend, log, disk, opened, snap, abs, seen, n>> /\ NoTurn
  /\ LET b == index[loc[p].i] IN
     IF ~opened THEN FreeAll(p) /\ Idle(p) /\ UNCHANGED bad
     ELSE IF b = 0 THEN FreeAll(p) /\ Idle(p) /\ Wrong(IF <<>> \in seen[p] THEN {} ELSE {"missing"})
     ELSE (IF In("getlock") THEN UNCHANGED Locks ELSE FreeAll(p)) /\ To(p, "g2") /\ Keep(p, [loc[p] EXCEPT !.b = b]) /\ UNCHANGED bad
GetA(p) == /\ pc[p] = "g2" /\ To(p, "g3") /\ Keep(p, [loc[p] EXCEPT !.a = con[loc[p].b].a]) /\ Wrong(Device("get")) /\ Turn(p)
           /\ UNCHANGED <<index, con, free, pend, log, disk, opened, snap, abs, seen, n, Locks>>
GetB(p) == /\ pc[p] = "g3" /\ FreeAll(p) /\ Idle(p) /\ Wrong(Device("get") \cup (IF <<loc[p].a, con[loc[p].b].b>> \in seen[p] THEN {} ELSE {"read"}))
           /\ UNCHANGED <<index, con, free, pend, log, disk, opened, snap, abs, seen, n>> /\ NoTurn

\* ---- delete
Del(p) ==
  /\ pc[p] = "d3" /\ FreeAll(p) /\ Idle(p) /\ UNCHANGED <<con, disk, opened, snap, n>> /\ NoTurn
  /\ LET i == loc[p].i  old == index[i]  fq == Later(old, free, pend) IN
     IF ~opened \/ old = 0 THEN UNCHANGED <<index, free, pend, log, abs, seen>> /\ Wrong(IF opened /\ abs[i] # <<>> THEN {"undeleted"} ELSE {})
     ELSE /\ index' = [index EXCEPT ![i] = 0] /\ log' = Append(log, Rec(i, 0, 0)) /\ free' = fq[1] /\ pend' = fq[2] /\ Abs(i, <<>>) /\ UNCHANGED bad

\* ---- update in place (of one part: the block is read, changed and written), or a put that must not overwrite
UpdLook(p) ==
  /\ pc[p] = "u1" /\ UNCHANGED <<Data, n>> /\ NoTurn
  /\ LET b == index[loc[p].i] IN
     IF ~opened THEN FreeAll(p) /\ Idle(p)
     ELSE IF b = 0 THEN FreeAll(p) /\ To(p, "put") /\ Keep(p, [loc[p] EXCEPT !.new = TRUE])
     ELSE UNCHANGED Locks /\ To(p, "u2") /\ Keep(p, [loc[p] EXCEPT !.b = b])
UpdRead(p) == /\ pc[p] = "u2" /\ To(p, "u3") /\ Turn(p) /\ Wrong(Device("update"))
              /\ Keep(p, [loc[p] EXCEPT !.a = IF loc[p].t % 2 = 0 THEN con[loc[p].b].a ELSE con[loc[p].b].b])
              /\ UNCHANGED <<index, con, free, pend, log, disk, opened, snap, abs, seen, n, Locks>>
UpdWrite(p) ==
  /\ pc[p] = "u3" /\ Turn(p) /\ FreeAll(p) /\ Idle(p) /\ UNCHANGED <<index, free, pend, log, disk, opened, snap, n>>
  /\ LET i == loc[p].i  t == loc[p].t  b == loc[p].b
         v == IF t % 2 = 0 THEN <<loc[p].a, t>> ELSE <<t, loc[p].a>>
         w == IF abs[i] = <<>> THEN <<>> ELSE IF t % 2 = 0 THEN <<abs[i][1], t>> ELSE <<t, abs[i][2]>> IN
     /\ con' = [con EXCEPT ![b].a = v[1], ![b].b = v[2]] /\ Abs(i, w) /\ Wrong(Device("update"))

\* ---- the others
SyncDev(p) == /\ pc[p] = "s2" /\ Turn(p) /\ To(p, "s3") /\ UNCHANGED <<index, con, free, pend, opened, snap, abs, seen, loc, n>>
              /\ disk' = Apply(disk, log) /\ log' = <<>> /\ Wrong(Device("sync"))
              /\ IF In("syncjr") THEN UNCHANGED Locks ELSE FreeAll(p)
SyncEnd(p) == /\ pc[p] = "s3" /\ FreeAll(p) /\ Idle(p) /\ free' = free \cup pend /\ pend' = {} /\ NoTurn
              /\ UNCHANGED <<index, con, log, disk, opened, snap, abs, seen, bad, n>>
SyncOpen(p) == /\ pc[p] = "s1" /\ UNCHANGED <<Data, n>> /\ NoTurn
               /\ IF opened THEN To(p, "s2") /\ UNCHANGED <<loc, Locks>> ELSE FreeAll(p) /\ Idle(p)
Close(p) == /\ pc[p] = "c3" /\ FreeAll(p) /\ Idle(p) /\ opened' = FALSE /\ disk' = Apply(disk, log) /\ log' = <<>> /\ free' = free \cup pend /\ pend' = {}
            /\ UNCHANGED <<index, con, snap, abs, seen, bad, n>> /\ NoTurn
Snap(p) == /\ pc[p] = "n2" /\ FreeAll(p) /\ Idle(p) /\ snap' = (opened /\ ~snap) /\ UNCHANGED <<index, con, free, pend, log, disk, opened, abs, seen, bad, n>> /\ NoTurn
Side(p) == /\ pc[p] = "j3" /\ Turn(p) /\ FreeAll(p) /\ Idle(p) /\ UNCHANGED <<index, con, free, pend, log, disk, opened, snap, abs, seen, n>>
           /\ Wrong(IF In("sidecheck") THEN {} ELSE Device("side"))
SideCheck(p) == /\ pc[p] = "side" /\ UNCHANGED <<Data, Locks, n>> /\ NoTurn
                /\ IF ~opened /\ ~In("sidecheck") THEN Idle(p) ELSE To(p, "j1") /\ UNCHANGED loc

Step(p) ==
  \/ PutLock(p) \/ PutAlloc(p) \/ PutWrite(p) \/ LockW(p, "p3", "p4") \/ LockJ(p, "p4", "p5") \/ PutRecord(p)
  \/ LockR(p, "get", "g1") \/ GetLook(p) \/ GetA(p) \/ GetB(p)
  \/ LockW(p, "del", "d2") \/ LockJ(p, "d2", "d3") \/ Del(p)
  \/ (IF In("updatelock") THEN LockW(p, "puto", "u1") ELSE LockR(p, "puto", "u1")) \/ UpdLook(p) \/ UpdRead(p) \/ UpdWrite(p)
  \/ LockJ(p, "sync", "s1") \/ SyncOpen(p) \/ SyncDev(p) \/ SyncEnd(p)
  \/ LockW(p, "close", "c2") \/ LockJ(p, "c2", "c3") \/ Close(p)
  \/ LockJ(p, "snapc", IF In("order") THEN "n2" ELSE "n1") \/ LockW(p, "n1", "n2") \/ Snap(p)
  \/ SideCheck(p) \/ LockW(p, "j1", "j2") \/ LockJ(p, "j2", "j3") \/ Side(p)
Next == \E p \in Threads : Call(p) \/ Step(p)
Spec == Init /\ [][Next]_cvars

Quiet == \A p \in Threads : pc[p] = "idle"
Right == bad = {}
NoDeadlock == Quiet \/ \E p \in Threads : ENABLED Step(p)
Unheld == iw = None /\ ir = {}
Mirror == Unheld => \A i \in Ids : IF index[i] = 0 THEN abs[i] = <<>> ELSE abs[i] = <<con[index[i]].a, con[index[i]].b>>
Owned == (Quiet /\ opened) =>
  LET used == {index[i] : i \in {j \in Ids : index[j] # 0}} IN
  /\ free \cup pend \cup used = Blocks /\ free \cap pend = {} /\ (free \cup pend) \cap used = {}
  /\ \A i, j \in Ids : i # j /\ index[i] # 0 => index[i] # index[j]
KillSafe == \A k \in 0..Len(log) : LET d == Apply(disk, SubSeq(log, 1, k)) IN \A i \in Ids : d[i].b # 0 => con[d[i].b].put = d[i].put
Note == Emit => (n' = MaxOps /\ Quiet' /\ ~Quiet /\ (Without = {} \/ bad' # {} \/ ~Mirror') => PrintT("SCRIPT " \o ToJson(h')))
Sym == Permutations(Threads)
\* the schedule is no part of the state
View == <<index, con, free, pend, log, disk, opened, iw, ir, wait, jr, pc, loc, abs, seen, bad, n>>
=============================================================================
