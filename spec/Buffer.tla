------------------------------- MODULE Buffer -------------------------------
(* The write buffer of the journal: for its users a plain sequence of bytes. *)
(* The bytes are divided into segments at cuts; val: which write gave each   *)
(* segment its content; may: the contents that each can have on the device   *)
(* (everything written since the last flush).                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES cap, cuts, pos, val, may
bvars == <<cap, cuts, pos, val, may>>

Segs == DOMAIN cuts
Hi(k) == IF k = Len(cuts) THEN cap ELSE cuts[k + 1]
\* the segments that [a, b) meets
Met(a, b) == SelectSeq([k \in Segs |-> k], LAMBDA k : cuts[k] < b /\ Hi(k) > a /\ a < b)

BInit(c, s) == cap = c /\ cuts = s /\ pos = 0 /\ val = [k \in DOMAIN s |-> 1] /\ may = [k \in DOMAIN s |-> {1}]

Seek(r, to, p, q) == r = "ok" /\ p = to /\ q = to /\ pos' = to /\ UNCHANGED <<cap, cuts, val, may>>
Least(a, b) == IF a < b THEN a ELSE b
Read(r, n, c, over, sg, q) ==
  /\ r \in {"ok", "eof"} /\ (r = "eof" => c = 0)
  /\ c = Least(n, cap - pos)       \* nothing but the end shortens it
  /\ over = 0
  /\ LET m == Met(pos, pos + c) IN
     Len(sg) = Len(m) /\ \A k \in DOMAIN m : \E x \in DOMAIN sg[k] : sg[k][x] = val[m[k]]
  /\ q = pos + c /\ pos' = q
  /\ UNCHANGED <<cap, cuts, val, may>>
Write(r, n, c, t, q) ==
  IF pos + n > cap
  THEN r # "ok" /\ r # "panic" /\ c = 0 /\ q = pos /\ UNCHANGED bvars
  ELSE /\ r = "ok" /\ c = n /\ q = pos + n /\ pos' = q
       /\ LET m == Met(pos, pos + n) IN
          /\ val' = [k \in Segs |-> IF \E x \in DOMAIN m : m[x] = k THEN t ELSE val[k]]
          /\ may' = [k \in Segs |-> IF \E x \in DOMAIN m : m[x] = k THEN may[k] \cup {t} ELSE may[k]]
       /\ UNCHANGED <<cap, cuts>>
Clean == may' = [k \in Segs |-> {val[k]}]
Flush(r) == r = "ok" /\ Clean /\ UNCHANGED <<cap, cuts, pos, val>>
Reopen(r) == r = "ok" /\ Clean /\ pos' = 0 /\ UNCHANGED <<cap, cuts, val>>
Device(sg) ==
  /\ Len(sg) = Len(cuts)
  /\ \A k \in Segs : \E x \in DOMAIN sg[k] : sg[k][x] \in may[k]
  \* what has reached the device does not go back to something older
  /\ may' = [k \in Segs |-> {v \in may[k] : \E x \in DOMAIN sg[k] : sg[k][x] \in may[k] /\ sg[k][x] <= v}]
  /\ UNCHANGED <<cap, cuts, pos, val>>
=============================================================================
