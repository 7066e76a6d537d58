------------------------------- MODULE SnapDev -------------------------------
(* A device with at most one snapshot: what it holds, what the snapshot       *)
(* holds, and both before the last operation, for images of a killed process. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES dev,    \* sector -> the write that gave it its content
          shot,   \* the same at the moment of the snapshot; << >> without one
          old     \* [d, s]: dev and shot before the last operation
svars == <<dev, shot, old>>

SInit(n) == dev = [k \in 1..n |-> 1] /\ shot = <<>> /\ old = [d |-> dev, s |-> <<>>]
Was == old' = [d |-> dev, s |-> shot]
\* some write of each of these sectors explains what was read of it
Holds(sg, img) == Len(sg) = Len(img) /\ \A k \in DOMAIN img : \E x \in DOMAIN sg[k] : sg[k][x] = img[k]
Wrote(s, n, t) == [k \in DOMAIN dev |-> IF k > s /\ k <= s + n THEN t ELSE dev[k]]

Write(r, s, n, t) == r = "ok" /\ Was /\ dev' = Wrote(s, n, t) /\ UNCHANGED shot
Create(r) ==
  /\ Was /\ UNCHANGED dev
  /\ IF shot = <<>> THEN r = "ok" /\ shot' = dev ELSE r # "ok" /\ UNCHANGED shot
Delete(r) == r = "ok" /\ Was /\ shot' = <<>> /\ UNCHANGED dev
\* from sector s to the end, or n sectors
Read(r, s, n, sg) ==
  /\ UNCHANGED svars
  /\ IF shot = <<>> THEN r = "none"
     ELSE LET e == IF s + n > Len(shot) THEN Len(shot) ELSE s + n IN
          r = "ok" /\ Holds(sg, SubSeq(shot, s + 1, e))
Reopen(r) == r = "ok" /\ Was /\ UNCHANGED <<dev, shot>>
\* the process was killed during the last operation, and a new one has opened what it left
Crash(r) == r = "ok" /\ dev' \in {old.d, dev} /\ shot' \in {old.s, shot} /\ old' = [d |-> dev', s |-> shot']
Look(sg, files) == Holds(sg, dev) /\ files = (IF shot = <<>> THEN 0 ELSE 1) /\ UNCHANGED svars
\* what such a new process finds: the device; whether there is a snapshot, what it holds, and
\* holds after everything was overwritten
Probe(r, sg, has, s1, s2) ==
  /\ r = "ok" /\ UNCHANGED svars
  /\ Holds(sg, old.d) \/ Holds(sg, dev)
  /\ IF has THEN \E i \in {old.s, shot} : i # <<>> /\ Holds(s1, i) /\ Holds(s2, i)
     ELSE <<>> \in {old.s, shot}
=============================================================================
