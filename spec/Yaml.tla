------------------------------- MODULE Yaml -------------------------------
(* Ways of writing one value: as JSON, and as YAML in block or flow style.
   Text that is not quoted is read by its looks (Reads); quoting is left out
   only when the looks tell it is text.  Keys that look like numbers may be
   written without quotes: a name is a name.                               *)
EXTENDS Values
Digits == {Ch("0123456789", i) : i \in 1 .. 10}
SignOf(s) == IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN From(s, 2) ELSE s
AllDigits(s) == s # "" /\ \A i \in 1 .. Len(s) : Ch(s, i) \in Digits
(* a whole number written the usual way *)
Whole(s) == AllDigits(s) /\ (s = "0" \/ Ch(s, 1) # "0")
(* what text without quotes is read as *)
Reads(s) ==
  CASE s \in {"", "~", "null", "Null", "NULL"} -> "null"
    [] s \in {"true", "false", "yes", "no", "on", "off", "True", "False", "Yes", "No", "On", "Off", "TRUE", "FALSE", "YES", "NO", "ON", "OFF"} -> "bool"
    [] s # "" /\ (Ch(s, 1) \in Digits \/ (Ch(s, 1) \in {"-", "+", "."} /\ Len(s) > 1 /\ Ch(s, 2) \in Digits \cup {"."})) -> "number"
    [] OTHER -> "text"
Indicators == {"-", "?", ":", ",", "[", "]", "{", "}", "#", "&", "*", "!", "|", ">", "'", "\"", "%", "@", "`", " ", "<", "=", "~"}
(* text which may stand without quotes anywhere *)
Bare(s) == /\ Reads(s) = "text"
           /\ Ch(s, 1) \notin Indicators /\ Ch(s, Len(s)) \notin {" ", ":"}
           /\ ~Contains(s, ": ") /\ ~Contains(s, " #")
           /\ \A i \in 1 .. Len(s) : Ch(s, i) \notin {",", "[", "]", "{", "}", "\n", "\t"}
RECURSIVE EscFrom(_, _)
EscFrom(s, i) == IF i > Len(s) THEN "" ELSE
  (CASE Ch(s, i) = "\"" -> "\\\"" [] Ch(s, i) = "\\" -> "\\\\" [] Ch(s, i) = "\n" -> "\\n" [] Ch(s, i) = "\t" -> "\\t" [] OTHER -> Ch(s, i)) \o EscFrom(s, i + 1)
Double(s) == "\"" \o EscFrom(s, 1) \o "\""
Single(s) == "'" \o Replace(s, "'", "''") \o "'"
(* q: quotes used when there is a choice *)
Quoted(s, q) == CASE q = "plain" /\ Bare(s) -> s
                  [] q = "double" \/ Contains(s, "\n") \/ Contains(s, "\t") -> Double(s)
                  [] OTHER -> Single(s)
KeyText(k, q) == IF q # "double" /\ Whole(k) THEN k ELSE Quoted(k, q)
Scalar(x, q) == CASE x[1] = "s" -> Quoted(x[2], q)
                  [] x[1] = "n" -> x[2]
                  [] x[1] = "b" -> (IF q = "single" THEN (IF x[2] = "true" THEN "True" ELSE "no") ELSE x[2])
                  [] OTHER -> (IF q = "single" THEN "~" ELSE "null")
Inner(x) == x[1] \in {"a", "o"} /\ DOMAIN x[2] # {}
RECURSIVE InOrder(_)
InOrder(S_) == IF S_ = {} THEN <<>> ELSE LET k == CHOOSE k \in S_ : TRUE IN <<k>> \o InOrder(S_ \ {k})
Order(f) == InOrder(DOMAIN f)
RECURSIVE JsonText(_)
JsonText(x) ==
  CASE x[1] = "a" -> "[" \o Join([i \in DOMAIN x[2] |-> JsonText(x[2][i])], ", ") \o "]"
    [] x[1] = "o" -> (LET ks == Order(x[2]) IN "{" \o Join([i \in DOMAIN ks |-> Double(ks[i]) \o ": " \o JsonText(x[2][ks[i]])], ", ") \o "}")
    [] OTHER -> Scalar(x, "double")
RECURSIVE FlowText(_, _)
FlowText(x, q) ==
  CASE x[1] = "a" -> "[" \o Join([i \in DOMAIN x[2] |-> FlowText(x[2][i], q)], ", ") \o "]"
    [] x[1] = "o" -> (LET ks == Order(x[2]) IN "{" \o Join([i \in DOMAIN ks |-> KeyText(ks[i], q) \o ": " \o FlowText(x[2][ks[i]], q)], ", ") \o "}")
    [] OTHER -> Scalar(x, q)
RECURSIVE BlockLines(_, _, _)
(* lines of a collection that is not empty; 'tight': an element of a list starts behind its dash *)
BlockLines(x, q, tight) ==
  LET shift(ls, by) == [i \in DOMAIN ls |-> by \o ls[i]]
      entry(y) == IF ~Inner(y) THEN <<>> ELSE BlockLines(y, q, tight)
      under(head, y) == IF ~Inner(y) THEN <<head \o " " \o FlowText(y, q)>> ELSE <<head>> \o shift(entry(y), "  ")
      elm(y) == IF Inner(y) /\ tight THEN LET ls == entry(y) IN <<"- " \o ls[1]>> \o shift(Tail(ls), "  ") ELSE under("-", y)
  IN IF x[1] = "a" THEN Flatten([i \in DOMAIN x[2] |-> elm(x[2][i])])
     ELSE LET ks == Order(x[2]) IN Flatten([i \in DOMAIN ks |-> under(KeyText(ks[i], q) \o ":", x[2][ks[i]])])
Written(x, form, q) ==
  CASE form = "json" -> JsonText(x)
    [] form = "flow" -> "--- " \o FlowText(x, q) \o "\n"
    [] OTHER -> IF Inner(x) THEN Join(BlockLines(x, q, form = "tight"), "\n") \o "\n" ELSE FlowText(x, q)
=============================================================================
