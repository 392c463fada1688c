------------------------------- MODULE Text -------------------------------
(* Strings as sequences of characters *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

RECURSIVE IndexFrom(_, _, _)
(* position of the first occurrence of p in s at or after i, 0 if none *)
IndexFrom(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
  ELSE IndexFrom(s, p, i + 1)
IndexOf(s, p) == IndexFrom(s, p, 1)

RECURSIVE LastFrom(_, _, _)
LastFrom(s, c, i) == IF i < 1 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE LastFrom(s, c, i - 1)
LastIndexOf(s, c) == LastFrom(s, c, Len(s))

Contains(s, p) == IndexOf(s, p) > 0

RECURSIVE Split(_, _)
(* pieces between occurrences of the non-empty separator; always >= 1 piece *)
Split(s, sep) ==
  LET i == IndexOf(s, sep)
  IN IF i = 0 THEN <<s>> ELSE <<Upto(s, i - 1)>> \o Split(From(s, i + Len(sep)), sep)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, i) == IF i > Len(q) THEN "" ELSE IF i = Len(q) THEN q[i] ELSE q[i] \o sep \o JoinFrom(q, sep, i + 1)
Join(q, sep) == JoinFrom(q, sep, 1)

Replace(s, c, r) == Join(Split(s, c), r)

RECURSIVE CharsFrom(_, _)
CharsFrom(s, i) == IF i > Len(s) THEN <<>> ELSE <<Ch(s, i)>> \o CharsFrom(s, i + 1)
Chars(s) == CharsFrom(s, 1)

(* sequence folding without further modules *)
RECURSIVE FlattenFrom(_, _)
FlattenFrom(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o FlattenFrom(q, i + 1)
Flatten(q) == FlattenFrom(q, 1)

RECURSIVE FilterFrom(_, _, _)
FilterFrom(q, S, i) == IF i > Len(q) THEN <<>> ELSE (IF i \in S THEN <<q[i]>> ELSE <<>>) \o FilterFrom(q, S, i + 1)
KeepIdx(q, S) == FilterFrom(q, S, 1)

Range(q) == {q[i] : i \in DOMAIN q}
IsPrefixSeq(a, b) == Len(a) <= Len(b) /\ \A i \in 1 .. Len(a) : a[i] = b[i]
DropSeq(q, n) == SubSeq(q, n + 1, Len(q))
LastOf(q) == q[Len(q)]
FrontOf(q) == SubSeq(q, 1, Len(q) - 1)
===========================================================================
