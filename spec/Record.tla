------------------------------- MODULE Record -------------------------------
(* The format of journal records: 4 bytes Adler-32 of everything behind      *)
(* them, a tag byte, a body.                                                 *)
EXTENDS Integers, Sequences, TLC, SequencesExt
Sub(b, i, n) == SubSeq(b, i, i + n - 1)
\* <<high 16 bits, low 16 bits>>; TLC's integers have 32 bits
Adler(b) == LET s == FoldLeft(LAMBDA x, y : LET a == (x[1] + y) % 65521 IN <<a, (x[2] + a) % 65521>>, <<1, 0>>, b) IN <<s[2], s[1]>>
Sum(b) == LET a == Adler(b) IN <<a[1] \div 256, a[1] % 256, a[2] \div 256, a[2] % 256>>
Write(tag, body) == LET c == <<tag>> \o body IN Sum(c) \o c
\* the size of the record that begins b; 0: none does
Size(b) ==
  IF Len(b) < 5 THEN 0 ELSE
  CASE b[5] \in {0, 1} -> 5
    [] b[5] = 3 -> 20
    [] b[5] = 4 -> IF Len(b) < 15 THEN 0 ELSE 15 + 256 * b[14] + b[15]
    [] b[5] = 5 -> 13
    [] b[5] = 6 -> 21
    [] OTHER -> 0
\* reading gives tag and body, or <<>>: not a record
Read(b) ==
  LET n == Size(b) IN
  IF n = 0 \/ n > Len(b) THEN <<>>
  ELSE LET c == Sub(b, 5, n - 4) IN IF Sum(c) = Sub(b, 1, 4) THEN c ELSE <<>>
=============================================================================
