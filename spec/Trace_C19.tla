----------------------------- MODULE Trace_C19 -----------------------------
(* histories of several dictionaries: d[i] = [sep, items] *)
EXTENDS TraceRun, Scope
Default == "!##!"
TheStart(tr) == [i \in {} |-> 0]
R(s, ok, exp) == [st |-> s, ok |-> ok, exp |-> exp]
Set(s, i, v) == [k \in DOMAIN s \cup {i} |-> IF k = i THEN v ELSE s[k]]
Map(pairs) == [k \in {pairs[i][1] : i \in 1 .. Len(pairs)} |-> (CHOOSE i \in 1 .. Len(pairs) : pairs[i][1] = k)]
Item(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
RECURSIVE Fill(_, _, _)
Fill(f, ps, i) == IF i > Len(ps) THEN f ELSE Fill(Item(f, ps[i][1], ps[i][2]), ps, i + 1)
TheStep(s, e) ==
  CASE e.op = "new" -> R(Set(s, e.d, [sep |-> Default, f |-> Fill([k \in {} |-> 0], e.items, 1)]), e.out = <<"ok">>, "made")
    [] e.op = "sep" -> R([s EXCEPT ![e.d].sep = e.sep], e.out = <<"ok">>, "set")
    [] e.op = "put" -> R([s EXCEPT ![e.d].f = Item(@, e.k, e.v)], e.out = <<"ok">>, "put")
    [] e.op = "del" -> R([s EXCEPT ![e.d].f = [k \in DOMAIN @ \ {e.k} |-> @[k]]], e.out = <<"ok">>, "deleted")
    [] e.op = "look" ->
         LET d == s[e.d]
             q == IF e.str THEN e.q[1] ELSE ComposeAll(e.q, d.sep, Len(e.q))[2]
             x == Look(DOMAIN d.f, q, d.sep)
             y == IF x[1] = "hit" THEN <<"hit", d.f[x[2]]>> ELSE x
         IN R(s, e.out = y, y)
    [] e.op = "compose" -> LET x == <<"ok", Compose2(e.a, e.b, e.sep)>> IN R(s, e.out = x, x)
    [] e.op = "split" -> LET x == <<"ok", <<"a", SplitScope(e.a, e.sep)>>>> IN R(s, e.out = x, x)
===========================================================================
