----------------------------- MODULE Trace_C21 -----------------------------
(* types are declared, objects built from documents and prepared objects,
   their names read and written, and dumped                                 *)
EXTENDS TraceRun, Fields
TheStart(t) == [ts |-> <<>>, gs |-> <<>>, os |-> <<>>, lost |-> FALSE]

(* declarations come as sequences of <<name, declaration>> *)
Decls(q) == TLCEval([n \in {q[j][1] : j \in 1 .. Len(q)} |-> LET j == CHOOSE j \in 1 .. Len(q) : q[j][1] = n IN q[j][2]])
Is(s, ok, want) == [st |-> s, ok |-> ok, exp |-> want]

Build_(s, e) ==
  LET ps == {e.prep[j] : j \in 1 .. Len(e.prep)}
      prepared(as) == {[r |-> IF as THEN <<"s", RelPtr(p.at)>> ELSE <<"n", p.at>>, x |-> [s.os[p.x] EXCEPT !.id = p.x]] : p \in ps}
      n == Build(s.ts, e.b, e.doc, prepared(FALSE))
      m == Build(s.ts, e.b, e.doc, prepared(TRUE))
      shape(x) == IF IsErr(x) THEN {<<<<>>, "err", 0, 0>>} ELSE Shape(s.ts, x, <<>>)
      got == {e.out[j] : j \in 1 .. Len(e.out)}
      ok == got = shape(n)
      asis == ~ok /\ got = shape(m)
      odd == \E p \in ps : \E j \in 1 .. Len(p.at) : p.at[j] = "" \/ EncTok(p.at[j]) # p.at[j]
  IN [st |-> [s EXCEPT !.os = Append(@, IF asis THEN m ELSE n), !.lost = ~ok /\ ~asis], ok |-> ok /\ e.held, exp |-> <<shape(n), e.held>>,
      kf |-> IF ~asis \/ ~e.held THEN "" ELSE IF odd THEN "F-OVR-NAME" ELSE "F-OVR-EMPTY"]

TheStep(s, e) ==
  CASE s.lost -> Is(s, TRUE, 0)   \* not followed any further
    [] e.op = "type" -> Is([s EXCEPT !.ts = Append(@, NewType(s.ts, e.bases, Decls(e.f), Decls(e.c), Decls(e.i)))], e.out = "ok", "ok")
    [] e.op = "attach" -> Is([s EXCEPT !.ts[e.t][e.part] = With(@, e.name, e.d)], e.out = "ok", "ok")
    [] e.op = "group" -> Is([s EXCEPT !.gs = Append(@, Decls(e.a))], TRUE, 0)
    [] e.op = "build" -> Build_(s, e)
    [] e.op = "read" ->
         LET w == Read(s.ts, Find(s.ts, s.os[e.o], e.at), e.name)
             w2 == IF w[1] = "node" THEN <<"node", Append(e.at, w[2])>> ELSE w
         IN Is(s, e.out = w2, w2)
    [] e.op = "write" ->
         LET n == Find(s.ts, s.os[e.o], e.at)
             m == Write(s.ts, n, e.name, e.v)
         IN IF IsErr(m) THEN Is(s, e.out = "err", "err")
            ELSE Is([s EXCEPT !.os[e.o] = Chg(s.ts, @, e.at, m)], e.out = "ok", "ok")
    [] e.op = "isset" -> LET w == Has(Find(s.ts, s.os[e.o], e.at).doc, e.name) IN Is(s, e.out = w, w)
    [] e.op = "names" -> LET w == NamesOf(s.ts[Find(s.ts, s.os[e.o], e.at).t])
                             got == {e.out[j] : j \in 1 .. Len(e.out)}
                             late == {n \in DOMAIN s.ts[Find(s.ts, s.os[e.o], e.at).t].f : s.ts[Find(s.ts, s.os[e.o], e.at).t].f[n].attached}
                         IN [st |-> s, ok |-> got = w, exp |-> w, kf |-> IF got = w \ late THEN "F-DUMP-KEY" ELSE ""]
    [] e.op = "dump" -> LET n == Find(s.ts, s.os[e.o], e.at)
                            w == Dumped(s.ts, n)
                        IN [st |-> s, ok |-> e.out = w, exp |-> w, kf |-> IF e.out # w /\ e.out = DumpedAsIs(s.ts, n) THEN "F-DUMP-KEY" ELSE ""]
    (* a group is made when it is first asked for with its type, and stays *)
    [] e.op = "grp" ->
         LET n == Find(s.ts, s.os[e.o], e.at)
             has == e.ns \in DOMAIN n.grp
             w == IF has THEN "same" ELSE IF e.g = 0 THEN "none" ELSE "new"
             m == IF has \/ e.g = 0 THEN n ELSE [n EXCEPT !.grp = With(@, e.ns, [g |-> e.g, vals |-> <<>>])]
         IN Is([s EXCEPT !.os[e.o] = Chg(s.ts, @, e.at, m)], e.out = w, w)
    [] e.op = "gread" ->
         LET q == Find(s.ts, s.os[e.o], e.at).grp[e.ns]
             w == GroupRead(s.gs[q.g], q.vals, e.name)
         IN Is(s, e.out = w, w)
    [] e.op = "gwrite" ->
         LET n == Find(s.ts, s.os[e.o], e.at)
             q == n.grp[e.ns]
             m == [n EXCEPT !.grp = With(@, e.ns, [q EXCEPT !.vals = With(@, s.gs[q.g][e.name].key, e.v)])]
         IN Is([s EXCEPT !.os[e.o] = Chg(s.ts, @, e.at, m)], e.out = "ok", "ok")
=============================================================================
