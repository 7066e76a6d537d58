------------------------------- MODULE Alloc -------------------------------
(* The block allocator as its users see it: `used` is the sequence of the    *)
(* segments in use, ascending, each <<start, length>>.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES cap, used
avars == <<cap, used>>

End(p) == p[1] + p[2]
\* the free run in front of the k-th used segment (k = Len + 1: behind the last)
RunStart(k) == IF k = 1 THEN 0 ELSE End(used[k - 1])
RunEnd(k) == IF k > Len(used) THEN cap ELSE used[k][1]
RunLen(k) == RunEnd(k) - RunStart(k)
Slots == 1..Len(used) + 1
MaxRun == LET R == {RunLen(k) : k \in Slots} IN CHOOSE r \in R : \A x \in R : x <= r
Free == cap - FoldLeft(LAMBDA x, p : x + p[2], 0, used)
\* one free segment has 24 bits for its length
LongestPart == 16777215
Big == 8388608

AInit(n) == cap = n /\ used = <<>>
\* exactly n blocks, inside one free run
Allocate(n, r, s, len) ==
  /\ cap' = cap
  /\ \/ /\ r = "ok" /\ len = n
        /\ \E k \in Slots : /\ RunStart(k) <= s /\ s + n <= RunEnd(k)
                            /\ used' = InsertAt(used, k, <<s, n>>)
     \/ r = "full" /\ MaxRun < n /\ used' = used
Release(s, n, r) ==
  /\ r = "ok" /\ cap' = cap
  /\ \E k \in DOMAIN used : used[k] = <<s, n>> /\ used' = RemoveAt(used, k)
FreeOk(n) == n = Free
MaxOk(n) == IF MaxRun <= LongestPart THEN n = MaxRun ELSE Big <= n /\ n <= LongestPart
\* blocks in use of each n blocks
UsedIn(lo, hi) ==
  LET part(p) == LET a == IF p[1] > lo THEN p[1] ELSE lo
                     b == IF End(p) < hi THEN End(p) ELSE hi IN IF b > a THEN b - a ELSE 0
  IN FoldLeft(LAMBDA x, p : x + part(p), 0, used)
BitsOk(n, l) == Len(l) = cap \div n /\ \A k \in DOMAIN l : l[k] = UsedIn((k - 1) * n, k * n)

Ordered == \A k \in 1..Len(used) - 1 : End(used[k]) <= used[k + 1][1]
Inside == Len(used) > 0 => used[1][1] >= 0 /\ End(used[Len(used)]) <= cap
=============================================================================
