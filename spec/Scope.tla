------------------------------- MODULE Scope -------------------------------
(* Scoped names: names joined by a separator; lookup by a trailing part.  *)
EXTENDS Values

(* an absent scope or name is NULL *)
Compose2(scope, name, sep) ==
  CASE IsStr(scope) /\ IsStr(name) /\ scope[2] # "" /\ name[2] # "" -> S(scope[2] \o sep \o name[2])
    [] IsNull(name) -> scope
    [] OTHER -> IF IsStr(scope) /\ scope[2] # "" THEN scope ELSE name
SplitScope(s, sep) == IF IsNull(s) \/ s[2] = "" THEN <<NULL>> ELSE LET q == Split(s[2], sep) IN [i \in 1 .. Len(q) |-> S(q[i])]
RECURSIVE ComposeAll(_, _, _)
ComposeAll(names, sep, i) == IF i = 1 THEN S(names[1]) ELSE Compose2(ComposeAll(names, sep, i - 1), S(names[i]), sep)

(* keys: set of strings *)
Ending(keys, q, sep) == {k \in keys : EndsWith(k, sep \o q)}
(* <<"hit", key>> <<"ambiguous">> <<"missing">> *)
Look(keys, q, sep) ==
  IF q \in keys THEN <<"hit", q>>
  ELSE LET c == Ending(keys, q, sep) IN
       CASE c = {} -> <<"missing">>
         [] Cardinality(c) = 1 -> <<"hit", CHOOSE k \in c : TRUE>>
         [] OTHER -> <<"ambiguous">>
============================================================================
