------------------------------ MODULE Values ------------------------------
(* JSON values as tagged tuples (TLC has no dynamic typing):
   <<"s",str>> <<"n",repr>> <<"b","true"|"false">> <<"z">>
   <<"a",<<..>>>> <<"o",[name |-> value]>>                                *)
EXTENDS Text

S(x) == <<"s", x>>
Num(x) == <<"n", x>>
Bool(x) == <<"b", IF x THEN "true" ELSE "false">>
TRUE_ == <<"b", "true">>
FALSE_ == <<"b", "false">>
NULL == <<"z">>
Arr(q) == <<"a", q>>
Obj(f) == <<"o", f>>
EMPTYF == <<>>
EMPTYO == <<"o", <<>>>>
EMPTYA == <<"a", <<>>>>

IsObj(x) == x[1] = "o"
IsArr(x) == x[1] = "a"
IsStr(x) == x[1] = "s"
IsNull(x) == x[1] = "z"
IsBool(x) == x[1] = "b"

Keys(x) == DOMAIN x[2]
Has(x, k) == IsObj(x) /\ k \in DOMAIN x[2]
(* value under k, NULL when absent *)
Get(x, k) == IF Has(x, k) THEN x[2][k] ELSE NULL
GetOr(x, k, d) == IF Has(x, k) THEN x[2][k] ELSE d
Items(x) == IF IsArr(x) THEN x[2] ELSE <<>>
Strs(x) == [i \in 1 .. Len(Items(x)) |-> Items(x)[i][2]]
(* present and not null *)
Given(x, k) == Has(x, k) /\ ~IsNull(x[2][k])
(* python truth *)
Truthy(x) == CASE x[1] = "z" -> FALSE
              [] x[1] = "b" -> x[2] = "true"
              [] x[1] = "s" -> x[2] # ""
              [] x[1] = "n" -> x[2] \notin {"0", "0.0", "-0.0"}
              [] x[1] = "a" -> Len(x[2]) > 0
              [] x[1] = "o" -> DOMAIN x[2] # {}

Restrict(f, ks) == TLCEval([k \in DOMAIN f \cap ks |-> f[k]])
Without(f, ks) == TLCEval([k \in DOMAIN f \ ks |-> f[k]])
Only(x, ks) == Obj(Restrict(x[2], ks))
Drop(x, ks) == Obj(Without(x[2], ks))
(* object with k set, unless the value is the marker NONE *)
NONE == <<"none">>
Put(x, k, v) == IF v = NONE THEN x ELSE Obj(TLCEval([q \in DOMAIN x[2] \cup {k} |-> IF q = k THEN v ELSE x[2][q]]))
Merge(a, b) == Obj(TLCEval([q \in DOMAIN a[2] \cup DOMAIN b[2] |-> IF q \in DOMAIN a[2] THEN a[2][q] ELSE b[2][q]]))
One(k, v) == Obj(TLCEval([q \in {k} |-> v]))
IfSet(x, k) == IF Has(x, k) THEN x[2][k] ELSE NONE

(* follow names; <<"missing">> if there is nothing *)
MISSING == <<"missing">>
IsIndex(s) == s # "" /\ \A i \in 1 .. Len(s) : Ch(s, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5
                 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
RECURSIVE ToNat(_)
ToNat(s) == IF s = "" THEN 0 ELSE 10 * ToNat(Upto(s, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))
RECURSIVE At(_, _)
At(x, names) ==
  IF names = <<>> \/ x = MISSING THEN x
  ELSE At(CASE IsObj(x) -> IF names[1] \in Keys(x) THEN x[2][names[1]] ELSE MISSING
            [] IsArr(x) -> IF IsIndex(names[1]) /\ Len(names[1]) < 6 /\ ToNat(names[1]) < Len(x[2])
                           THEN x[2][ToNat(names[1]) + 1] ELSE MISSING
            [] OTHER -> MISSING, Tail(names))
===========================================================================
