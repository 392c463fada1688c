---------------------------- MODULE Trace_Loads ----------------------------
(* Which documents are fetched while descriptions are loaded, upgraded and
   asked for parts.  'docs' are by address, bad ones are left out; 'hook' is
   what the redirect hook makes of an original address.  All sessions of a
   trace share the copies that are kept.                                    *)
EXTENDS TraceRun, Links
tr == Traces[cur_]
TheStart(t) == {}
Hooked(u) == IF u \in DOMAIN tr.hook THEN tr.hook[u] ELSE u
SetOf(q) == {q[i] : i \in DOMAIN q}
(* documents by original address *)
Orig == DOMAIN tr.docs \cup DOMAIN tr.hook
ds(had, bad) == TLCEval([u \in {x \in Orig : Hooked(x) \in DOMAIN tr.docs /\ (x \in had \/ Hooked(x) \notin bad)} |-> tr.docs[Hooked(u)]])
Need12(d, u) ==
  LET x == d[u]
      paths == {Items(Get(x, "apis"))[i][2]["path"][2] : i \in DOMAIN Items(Get(x, "apis"))}
  IN {u} \cup {UrlJoin(UrlDirname(u), From(p, 2)) : p \in paths}
TheStep(s, e) ==
  LET d == ds(s, SetOf(e.bad))
      pieces == {<<q[1], q[2], q[3]>> : q \in SetOf(e.start)}
      all == Needed(Gram(tr.v), d, pieces)
      need == IF tr.v = "1.2" THEN (IF tr.root \in DOMAIN d THEN Need12(d, tr.root) ELSE {tr.root}) ELSE DocsOf(all)
      lost == IF tr.v = "1.2" THEN need \ DOMAIN d # {} ELSE Dangling(d, all)
      new == need \ s
      want == {Hooked(u) : u \in new}
      got == SetOf(e.log)
      (* those who came: what was asked for and could be used *)
      came == {u \in new : Hooked(u) \in got /\ u \in DOMAIN d}
      once == \A a \in got : Cardinality({i \in DOMAIN e.log : e.log[i] = a}) <= Cardinality({u \in new : Hooked(u) = a})
  IN IF e.op = "again" THEN (* what is loaded is not loaded another time *)
       [st |-> s, ok |-> e.out = "ok" /\ e.same /\ got = {}, exp |-> <<"same">>]
     ELSE IF e.out = "err" THEN [st |-> s \cup came, ok |-> once /\ got \subseteq want /\ (lost \/ e.maybe), exp |-> <<"lost", lost, want>>]
     ELSE [st |-> s \cup need, ok |-> ~lost /\ once /\ got = want /\ Len(e.log) = Cardinality(new), exp |-> <<"ok", lost, want>>]
=============================================================================
