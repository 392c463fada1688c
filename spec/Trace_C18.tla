----------------------------- MODULE Trace_C18 -----------------------------
EXTENDS TraceRun, Scan
TheStart(tr) == 0
doc == Traces[cur_].doc
v == Traces[cur_].v
G == Gram(v)
root == <<Traces[cur_].cls>>
(* e.log: <<pointer, <<scanner, "call" | "result", handler>> ...>> per pointer in order of first call *)
TheStep(s, e) ==
  LET vis == Visit(G, root, doc, <<>>, Range(e.leaves))
      want == {w \in {<<Ptr(n[1]), LogOf(e.scs, IF e.app THEN <<n[2]>> \o SuperOf(v, n[2]) ELSE <<n[2]>>)>> : n \in vis} : w[2] # <<>>}
      got == {<<e.log[i][1], e.log[i][2]>> : i \in 1 .. Len(e.log)}
      asis == {w \in {<<n[3], LogOf(e.scs, IF e.app THEN <<n[2]>> \o SuperOf(v, n[2]) ELSE <<n[2]>>)>> : n \in VisitAsIs(G, root, doc, <<>>, "#", Range(e.leaves))} : w[2] # <<>>}
  IN IF e.out = <<"ok">> /\ e.same /\ got = want /\ Len(e.log) = Cardinality(want) THEN [st |-> s, ok |-> TRUE, exp |-> 0]
     ELSE [st |-> s, ok |-> FALSE, exp |-> want,
           kf |-> IF e.out = <<"ok">> /\ e.same /\ got = asis /\ Len(e.log) = Cardinality(asis) THEN "F-SCAN-NAME" ELSE ""]
===========================================================================
