---------------------------- MODULE Trace_Fetch ----------------------------
(* histories of requests to a resolver while documents and files change *)
EXTENDS TraceRun, Fetch
tr == Traces[cur_]
TheStart(t) == [w |-> EMPTYF, f |-> EMPTYF, kept |-> EMPTYF, q |-> <<>>, qd |-> EMPTYF]
Hooked(u) == IF u \in DOMAIN tr.hook THEN tr.hook[u] ELSE u
TheStep(s, e) ==
  CASE e.op = "put" -> [st |-> [s EXCEPT !.w = Set(@, e.at, e.c)], ok |-> TRUE, exp |-> 0]
    [] e.op = "file" -> [st |-> [s EXCEPT !.f = Set(@, AbsPath(e.at, tr.cwd), e.c)], ok |-> TRUE, exp |-> 0]
    [] e.op = "unfile" -> [st |-> [s EXCEPT !.f = Without(@, {AbsPath(e.at, tr.cwd)})], ok |-> TRUE, exp |-> 0]
    [] e.op = "queue" -> [st |-> [s EXCEPT !.q = e.q, !.qd = e.d], ok |-> TRUE, exp |-> 0]
    [] OTHER ->
         LET j == JrSplit(e.ref, tr.cwd)
             r == Request(s, j[2][1], Hooked(j[2][1]), Names(j[2][2]), e.via)
         IN [st |-> r.st, ok |-> e.out = r.out /\ e.log = r.log, exp |-> <<r.out, r.log>>]
=============================================================================
