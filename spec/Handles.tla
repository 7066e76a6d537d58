------------------------------ MODULE Handles -------------------------------
(* Files that hold stores, and who has them open.                            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  kind,   \* file -> "none" no such file, "store", "bad" unusable contents, "odd" contents that
          \*         may or may not be usable
  val,    \* file -> what the store holds
  cap,    \* file -> its data capacity
  own,    \* file -> the handle that has it open, 0 if none
  known,  \* file -> its bytes when they were looked at last (a token)
  mod     \* files that may have changed since then
hvars == <<kind, val, cap, own, known, mod>>
Files == DOMAIN kind
B(x) == x = TRUE
Unread == -3   \* only the header was read

HInit(n) == /\ kind = [f \in 1..n |-> "none"] /\ own = [f \in 1..n |-> 0]
            /\ val = [f \in 1..n |-> 0] /\ cap = [f \in 1..n |-> 0]
            /\ known = [f \in 1..n |-> 0] /\ mod = {}
Failed(r) == r \notin {"ok", "panic", "hang", "died"}
Set(f, fn, x) == [fn EXCEPT ![f] = x]

\* a new store, open under the handle h; f = 0: a path where there can be no store
Create(f, good, flt, h, c, r) ==
  \/ /\ r = "ok" /\ f # 0 /\ good /\ kind[f] = "none"
     /\ kind' = Set(f, kind, "store") /\ val' = Set(f, val, 0) /\ cap' = Set(f, cap, c)
     /\ own' = Set(f, own, h) /\ mod' = mod \cup {f} /\ UNCHANGED known
  \/ /\ Failed(r) /\ B(f = 0 \/ ~good \/ flt \/ kind[f] # "none")
     /\ UNCHANGED hvars
\* v, c: what the opener finds
Open(f, flt, h, v, c, r) ==
  \/ /\ r = "ok" /\ f # 0 /\ kind[f] \in {"store", "odd"} /\ own[f] = 0
     /\ B(kind[f] = "store" => (v \in {val[f], Unread} /\ c = cap[f]))
     /\ own' = Set(f, own, h) /\ UNCHANGED <<kind, val, cap, known, mod>>
  \/ /\ Failed(r) /\ B(f = 0 \/ flt \/ kind[f] # "store" \/ own[f] # 0)
     /\ UNCHANGED hvars
\* by another process, which closes it again at once
OpenClose(f, v, c, r) ==
  \/ /\ r = "ok" /\ f # 0 /\ kind[f] \in {"store", "odd"} /\ own[f] = 0
     /\ B(kind[f] = "store" => (v \in {val[f], Unread} /\ c = cap[f]))
     /\ mod' = mod \cup {f} /\ UNCHANGED <<kind, val, cap, own, known>>
  \/ /\ Failed(r) /\ B(f = 0 \/ kind[f] # "store" \/ own[f] # 0) /\ UNCHANGED hvars
Close(f, h, r) ==
  /\ r = "ok" /\ own[f] = h
  /\ own' = Set(f, own, 0) /\ mod' = mod \cup {f} /\ UNCHANGED <<kind, val, cap, known>>
\* the handle is not valid any more
CloseAgain(r) == r = "ok" /\ UNCHANGED hvars
\* the process with the handle dies
Kill(f, h, r) == r = "ok" /\ own[f] = h /\ own' = Set(f, own, 0) /\ UNCHANGED <<kind, val, cap, known, mod>>
\* by the owner, flushed
Put(f, h, t, r) ==
  /\ r = "ok" /\ own[f] = h /\ kind[f] = "store"
  /\ val' = Set(f, val, t) /\ mod' = mod \cup {f} /\ UNCHANGED <<kind, cap, own, known>>
\* the data area is enlarged, the way the command line tool does it
Grow(f, c, r) ==
  \/ /\ r = "ok" /\ kind[f] = "store" /\ own[f] = 0 /\ cap' = Set(f, cap, c)
     /\ mod' = mod \cup {f} /\ UNCHANGED <<kind, val, own, known>>
  \/ /\ Failed(r) /\ (kind[f] # "store" \/ own[f] # 0) /\ UNCHANGED hvars
\* by hand, while nobody has it open
Alter(f, k, v, c) ==
  /\ own[f] = 0 /\ kind' = Set(f, kind, k) /\ val' = Set(f, val, v) /\ cap' = Set(f, cap, c)
  /\ mod' = mod \cup {f} /\ UNCHANGED <<own, known>>
\* fs: for each file, whether it is there, its bytes and whether the process has it open
Look(fs, extra) ==
  /\ extra = 0
  /\ \A f \in Files :
       /\ B(fs[f].there <=> kind[f] # "none")
       /\ B(fs[f].open <=> own[f] # 0)
       /\ B((f \notin mod /\ kind[f] # "none") => fs[f].fp = known[f])
  /\ known' = [f \in Files |-> fs[f].fp] /\ mod' = {}
  /\ UNCHANGED <<kind, val, cap, own>>
=============================================================================
