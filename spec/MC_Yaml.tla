----------------------------- MODULE MC_Yaml -----------------------------
(* small documents in every way of writing them *)
EXTENDS Yaml, Json
CONSTANTS Rich
Texts == {"1", "true", "null", "", "a: b", "x", "no", "1.5", "it's", "a #b", "two\nlines", "[", "-", "é", "0x1f", "~", "2015-01-01", "\\", "*x", "012"}
Few == {"1", "on", "", "x"}
Names == {"a", "200", "on", "é", "a b", "", "#x", "- ", ":", "0", "null", "012", "default", "/p/{q}"}
Scalars == {S(t) : t \in Texts} \cup {Num(n) : n \in {"1", "0", "-3", "2.5"}} \cup {TRUE_, FALSE_, NULL}
Leaves == {S(t) : t \in Few} \cup {Num("1"), TRUE_, FALSE_, NULL, EMPTYO, EMPTYA}
Single_(ns, vs) == {Obj(k :> v) : k \in ns, v \in vs}
Double_(ns, vs) == UNION {{Obj(k :> v @@ n :> w) : v \in vs, w \in vs} : <<k, n>> \in {<<a, b>> \in ns \X ns : a # b}}
Inside == Leaves \cup Single_({"a", "200"}, {S("x"), S("1"), Num("1"), EMPTYO}) \cup {Arr(<<v>>) : v \in {S("x"), Num("1"), EMPTYO, Obj("a" :> S("x"))}}
          \cup {Arr(<<S("x"), Arr(<<Num("1"), Obj("a" :> S("x") @@ "b" :> EMPTYA)>>)>>), Obj("a" :> Arr(<<Obj("404" :> NULL @@ "b" :> Arr(<<TRUE_>>))>>))}
Values_ == TLCEval(Single_(Names, Scalars) \cup Single_({"a", "200", ""}, Inside) \cup Single_({"a"}, {Arr(<<v, w>>) : v \in Inside, w \in Leaves})
          \cup Double_({"a", "200", "on"}, IF Rich THEN Inside ELSE Leaves) \cup (IF Rich THEN Double_(Names, Leaves) ELSE {}))
Forms == {"json", "flow", "block", "tight"}
Quotes == {"plain", "single", "double"}
VARIABLES val, form, quotes
Init == val = NULL /\ form \in Forms /\ quotes \in Quotes /\ (form = "json" => quotes = "double")
Next == val = NULL /\ val' \in Values_ /\ UNCHANGED <<form, quotes>>
(* no two documents are written the same way *)
Apart == val = NULL => Cardinality({Written(x, form, quotes) : x \in Values_}) = Cardinality(Values_)
(* only JSON starts with a brace *)
Told == (val # NULL /\ form # "json") => ~StartsWith(Written(val, form, quotes), "{")
Emit == val # NULL => PrintT("@Y " \o ToJson(<<val, Written(val, form, quotes), form>>))
=============================================================================
