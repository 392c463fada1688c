------------------------------ MODULE Pointer ------------------------------
(* JSON pointers: names and their escaped form *)
EXTENDS Text

RECURSIVE EncFrom(_, _)
EncFrom(x, i) ==
  IF i > Len(x) THEN ""
  ELSE (CASE Ch(x, i) = "~" -> "~0"
          [] Ch(x, i) = "/" -> "~1"
          [] OTHER -> Ch(x, i)) \o EncFrom(x, i + 1)
EncTok(x) == IF Contains(x, "~") \/ Contains(x, "/") THEN EncFrom(x, 1) ELSE x

RECURSIVE DecFrom(_, _)
DecFrom(x, i) ==
  IF i > Len(x) THEN ""
  ELSE IF i < Len(x) /\ Ch(x, i) = "~" /\ Ch(x, i + 1) = "1" THEN "/" \o DecFrom(x, i + 2)
  ELSE IF i < Len(x) /\ Ch(x, i) = "~" /\ Ch(x, i + 1) = "0" THEN "~" \o DecFrom(x, i + 2)
  ELSE Ch(x, i) \o DecFrom(x, i + 1)
DecTok(x) == IF Contains(x, "~") THEN DecFrom(x, 1) ELSE x

(* base is "" when there is none *)
Compose(base, toks) ==
  Join((IF base = "" THEN <<>> ELSE <<base>>) \o [i \in 1 .. Len(toks) |-> EncTok(toks[i])], "/")

SplitPtr(p) ==
  IF p = "" THEN <<>> ELSE LET q == Split(p, "/") IN [i \in 1 .. Len(q) |-> DecTok(q[i])]

(* names of an absolute pointer "#/a/b" *)
Names(p) == DropSeq(SplitPtr(p), 1)
Ptr(names) == Compose("#", names)
(* relative pointer, as used to name children *)
RelPtr(names) == Join([i \in 1 .. Len(names) |-> EncTok(names[i])], "/")

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN Digits[n + 1] ELSE NatStr(n \div 10) \o Digits[(n % 10) + 1]
=============================================================================
