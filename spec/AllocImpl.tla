----------------------------- MODULE AllocImpl -----------------------------
(* How the allocators work: an ordered set of free segments of at most       *)
(* MaxLen blocks, best fit, neighbours merged as long as they stay within    *)
(* MaxLen.  Checked to refine Alloc; the generator of allocator scripts.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS Cap, MaxLen, MaxReq, Depth,
          MergeRest   \* FALSE: the original, which merges only on release
VARIABLES free, used, ops, done
vars == <<free, used, ops, done>>

A == INSTANCE Alloc WITH cap <- Cap
End(p) == p[1] + p[2]
Less(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])

\* a free segment joins its neighbours
Join(F, p) ==
  LET L == {q \in F : End(q) = p[1] /\ q[2] + p[2] <= MaxLen}
      p1 == IF L = {} THEN p ELSE LET q == CHOOSE q \in L : TRUE IN <<q[1], q[2] + p[2]>>
      F1 == F \ L
      R == {q \in F1 : q[1] = End(p1) /\ q[2] + p1[2] <= MaxLen}
      p2 == IF R = {} THEN p1 ELSE LET q == CHOOSE q \in R : TRUE IN <<p1[1], p1[2] + q[2]>>
  IN (F1 \ R) \cup {p2}

\* all free segments for the segments in use
RECURSIVE Cut(_, _)
Cut(lo, hi) == IF hi <= lo THEN {} ELSE LET n == IF hi - lo > MaxLen THEN MaxLen ELSE hi - lo IN {<<hi - n, n>>} \cup Cut(lo, hi - n)
Restored == UNION {Cut(IF k = 1 THEN 0 ELSE End(used[k - 1]), IF k > Len(used) THEN Cap ELSE used[k][1]) : k \in 1..Len(used) + 1}

Add(seg) == LET k == Cardinality({x \in DOMAIN used : used[x][1] < seg[1]}) IN InsertAt(used, k + 1, seg)
Log(o, n) == ops' = Append(ops, [o |-> o, n |-> n])

Init == free = Cut(0, Cap) /\ used = <<>> /\ ops = <<>> /\ done = "ok"
Allocate(n) ==
  /\ LET S == {p \in free : p[2] >= n} IN
     IF S = {} THEN done' = "full" /\ UNCHANGED <<free, used>>
     ELSE LET p == CHOOSE p \in S : \A q \in S : p = q \/ Less(p, q)
              rest == <<p[1] + n, p[2] - n>> IN
          /\ done' = "ok"
          /\ used' = Add(<<p[1], n>>)
          /\ free' = IF rest[2] = 0 THEN free \ {p}
                     ELSE IF MergeRest THEN Join(free \ {p}, rest) ELSE (free \ {p}) \cup {rest}
  /\ Log("alloc", n)
\* scripts name the segments by the order of their allocation: any number will do
Release(k) ==
  /\ used' = RemoveAt(used, k) /\ free' = Join(free, used[k]) /\ done' = "ok"
  /\ Log("rel", k * 7)
Rebuild == free' = Restored /\ UNCHANGED used /\ done' = "ok" /\ Log("rebuild", 0)
Stop == Len(ops) = Depth /\ done # "stop" /\ done' = "stop" /\ UNCHANGED <<free, used, ops>>
Next ==
  \/ Stop
  \/ /\ Len(ops) < Depth
     /\ \/ \E n \in 1..MaxReq : Allocate(n)
        \/ \E k \in DOMAIN used : Release(k)
        \/ Rebuild
Spec == Init /\ [][Next]_vars

TypeOK == free \subseteq {<<s, n>> : s \in 0..Cap, n \in 1..MaxLen}
Partition ==
  /\ \A p, q \in free : p = q \/ End(p) <= q[1] \/ End(q) <= p[1]
  /\ \A p \in free, k \in DOMAIN used : End(p) <= used[k][1] \/ End(used[k]) <= p[1]
  /\ Cardinality(UNION {p[1]..End(p) - 1 : p \in free}) = A!Free
  /\ A!Ordered /\ A!Inside
\* the largest free segment is the largest run, or longer than every request
Largest == free # {} =>
  LET mx == CHOOSE n \in {p[2] : p \in free} : \A p \in free : p[2] <= n IN
  mx = A!MaxRun \/ (A!MaxRun > MaxLen /\ mx > MaxReq)
NeverRefuses == \A n \in 1..MaxReq : A!MaxRun >= n => \E p \in free : p[2] >= n
Refines == [][\/ UNCHANGED used
              \/ \E n \in 1..MaxReq : \E s \in 0..Cap : A!Allocate(n, "ok", s, n)
              \/ \E k \in DOMAIN used : A!Release(used[k][1], used[k][2], "ok")]_used
NoOps == <<free, used, done>>
Emit == done # "stop" \/ PrintT("SCRIPT " \o ToJson(ops))
=============================================================================
