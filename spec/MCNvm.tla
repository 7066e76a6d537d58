------------------------------- MODULE MCNvm -------------------------------
(* Every short sequence of operations on a device and its views, for the     *)
(* isolation of the views, and as scripts for the real devices.              *)
EXTENDS Nvm, Json
CONSTANTS Size, Cap, Depth, MaxViews, Emit
VARIABLES h
Op(o, v, s, n, a, x) == [o |-> o, i |-> v - 1, s |-> s, n |-> n, a |-> a, x |-> x]
Do(op) == h' = Append(h, op)
Offs == 0..(Cap + 1)
\* -512 as the harness knows it
Off(s, x) == IF x THEN -S ELSE s * S
Qs == {k * S : k \in 0..Cap}
Cs == {k * S : k \in 0..Cap}
Rs == {"ok", "inval", "eof"}
T == Len(h) + 2
Toks(v, off, c) == [k \in 1..(c \div S) |-> <<dev[views[v].a + (off \div S) + k]>>]
MInit == NInit(Size, 0, Cap) /\ h = <<>>
MNext ==
  /\ Len(h) < Depth
  /\ \E v \in DOMAIN views :
     \/ \E s \in Offs, x \in BOOLEAN : (x => s = 0) /\ Do(Op("seek", v, s, 0, 0, x)) /\ \E r \in Rs, q \in Qs : Seek(v, r, Off(s, x), 0, s * S, q)
     \/ \E n \in 0..Cap + 1 : Do(Op("read", v, 0, n, 0, FALSE)) /\ \E r \in Rs, q \in Qs, c \in Cs : c <= views[v].n - views[v].p /\ Read(v, r, n * S, c, Toks(v, views[v].p, c), q)
     \/ \E n \in 0..Cap + 1 : Do(Op("write", v, 0, n, 0, FALSE)) /\ \E r \in Rs, q \in Qs, c \in Cs : Write(v, r, n * S, c, T, q)
     \/ \E s \in Offs, n \in {1, Cap}, x \in BOOLEAN : (x => s = 0) /\ Do(Op("writeat", v, s, n, 0, x)) /\ \E r \in Rs, q \in Qs, c \in Cs : WriteAt(v, r, Off(s, x), n * S, c, T, q)
     \/ \E s \in Offs, x \in BOOLEAN : (x => s = 0) /\ Do(Op("readat", v, s, Cap, 0, x)) /\ \E r \in Rs, q \in Qs, c \in Cs :
           (c > 0 => Off(s, x) >= 0 /\ Off(s, x) + c <= views[v].n) /\ ReadAt(v, r, Off(s, x), Cap * S, c, Toks(v, Off(s, x), c), q)
     \/ \E s \in Offs, x \in BOOLEAN : (x => s = 0) /\ Len(views) < MaxViews /\ Do(Op("split", v, s, 0, 0, x)) /\ \E r \in Rs, lc, rc \in Cs, q \in Qs : Split(v, r, Off(s, x), lc, rc, q)
MSpec == MInit /\ [][MNext]_<<nvars, h>>

Range(v) == {views[v].a + k : k \in 1..(views[v].n \div S)}
\* the views of a split have nothing in common, and together what was split
Apart == \A k \in DOMAIN views : (k % 2 = 0) =>
           /\ Range(k) \cap Range(k + 1) = {}
           /\ \E j \in 1..(k - 1) : Range(k) \cup Range(k + 1) = Range(j)
Inside == \A i \in DOMAIN views : views[i].p >= 0 /\ views[i].p <= views[i].n /\ Range(i) \subseteq 1..Cap
\* what is behind the device is never touched, a write touches its view only
Outside == \A k \in (Cap + 1)..Size : dev[k] = 1
Own == [][\A k \in DOMAIN dev : dev'[k] # dev[k] => LET o == h'[Len(h')] IN o.o \in {"write", "writeat"} /\ k \in Range(o.i + 1)]_<<nvars, h>>
Note == Emit => PrintT("SCRIPT " \o ToJson(h'))
GenView == <<Len(h), views, dev>>
=============================================================================
