---------------------------- MODULE Trace_Store ----------------------------
(* histories of one store *)
EXTENDS TraceRun, Store
TheStart(tr) == [o |-> {}, r |-> <<>>]

P(s) == Names(s)
RECURSIVE Target(_)
RECURSIVE RSet(_)
RSet(list) == {[from |-> SplitPtr(list[i].from), to |-> Target(list[i].to)] : i \in 1 .. Len(list)}
Target(x) == CASE x.k = "nest" -> [k |-> "nest", r |-> RSet(x.r)]
               [] x.k = "abs" -> [k |-> "abs", p |-> Names(x.p)]
               [] x.k = "rel" -> [k |-> "rel", p |-> SplitPtr(x.p)]
RouteSet(list) == {[from |-> Names(list[i].from), to |-> Target(list[i].to)] : i \in 1 .. Len(list)}
Found(g) == IF g.hit THEN <<"hit", g.id, g.rest>> ELSE <<"none">>
Ret(s, ok, exp) == [st |-> s, ok |-> ok, exp |-> exp]

RECURSIVE AltFrom(_, _, _, _, _)
AltFrom(r, u, p, i, j) == IF i > j THEN p ELSE AltFrom(r, u, PatchFlat(RoutesOf(r, u, Versions[i]), p), i + 1, j)

TheStep(s, e) ==
  CASE e.op = "set" -> Ret([s EXCEPT !.o = StSet(@, e.u, P(e.p), e.v, e.id)], e.out = <<"ok">>, "stored")
    [] e.op = "get" -> LET x == Found(StGet(s.o, e.u, P(e.p), e.v)) IN Ret(s, e.out = x, x)
    [] e.op = "under" ->
         LET x == StUnder(s.o, e.u, P(e.p), e.v)
             s2 == IF e.remove THEN [s EXCEPT !.o = StRemove(@, e.u, P(e.p), e.v)] ELSE s
         IN Ret(s2, e.out[1] = "ok" /\ {<<e.out[2][i][1], e.out[2][i][2]>> : i \in 1 .. Len(e.out[2])} = x /\ Len(e.out[2]) = Cardinality(x), x)
    [] e.op = "until" ->
         LET g == StUntil(s.o, s.r, e.u, P(e.p), e.v, e.lim)
             x == IF g.hit THEN <<"hit", g.id, g.rest, Ptr(g.p), g.v>> ELSE <<"none">>
         IN Ret(s, e.out = x, x)
    [] e.op = "route" -> Ret([s EXCEPT !.r = AddRoutes(@, e.u, e.v, RouteSet(e.r))], e.out = <<"ok">>, "recorded")
    [] e.op = "reloc" ->
         LET x == Ptr(Relocate(s.r, e.u, P(e.p), e.v, e.w))
             y == Ptr(AltFrom(s.r, e.u, P(e.p), VIdx(e.v) + 1, VIdx(e.w)))
         IN Ret(s, e.out \in {<<"ok", x>>, <<"ok", y>>}, x)
===========================================================================
