----------------------------- MODULE Trace_C05 -----------------------------
(* histories of modifications and observations of loaded trees *)
EXTENDS TraceRun, Children
TheStart(t) == Empty_

Ext(f, q, Of(_)) == TLCEval([k \in 1 .. Len(f) + Len(q) |-> IF k <= Len(f) THEN f[k] ELSE Of(q[k - Len(f)])])
(* new objects as they are loaded, numbered on *)
New(s, q) ==
  LET kd(n) == n.kind
      ow(n) == n.own
      kd2(n) == TLCEval([m \in {z[1] : z \in {n.kids[j] : j \in 1 .. Len(n.kids)}} |->
                            LET j == CHOOSE j \in 1 .. Len(n.kids) : n.kids[j][1] = m IN n.kids[j][2]])
      pa(n) == n.par
      pp(n) == IF n.kind \in {"list", "map"} /\ n.kids = <<>> /\ n.inobj THEN 0 ELSE n.par
      ca(n) == {}
  IN [kind |-> Ext(s.kind, q, kd), own |-> Ext(s.own, q, ow), kids |-> Ext(s.kids, q, kd2),
      par |-> Ext(s.par, q, pa), ppar |-> Ext(s.ppar, q, pp), cache |-> Ext(s.cache, q, ca)]

Does(s, t) == [st |-> t, ok |-> TRUE, exp |-> 0]
TheStep(s, e) ==
  CASE e.op = "new" -> Does(s, New(s, e.nodes))
    [] e.op = "attach" -> [st |-> Attach(s, e.at, e.name, e.x), ok |-> e.out = "ok", exp |-> "ok"]
    [] e.op = "set" -> [st |-> Assign(s, e.at, e.name, e.x), ok |-> e.out = "ok", exp |-> "ok"]
    [] e.op = "put" -> [st |-> PutAt(s, e.at, e.name, e.x), ok |-> e.out = "ok", exp |-> "ok"]
    [] e.op = "append" -> [st |-> Add(s, e.at, e.x), ok |-> e.out = "ok", exp |-> "ok"]
    [] e.op = "extend" -> [st |-> AddAll(s, e.at, e.xs), ok |-> e.out = "ok", exp |-> "ok"]
    [] e.op = "merge" -> [st |-> MergeInto(s, e.at, e.x), ok |-> e.out = "ok", exp |-> "ok"]
    [] e.op = "kids" ->
         LET r == KidsAsIs(s, e.at)
             want == Kids(s, e.at)
             got == {e.out[j] : j \in 1 .. Len(e.out)}
             ok == got = want /\ Len(e.out) = Cardinality(want)
         IN [st |-> r.s, ok |-> ok, exp |-> want, kf |-> IF ~ok /\ got = r.out THEN "F-KIDS-STALE" ELSE ""]
    [] e.op = "parent" ->
         [st |-> s, ok |-> e.out = s.par[e.at], exp |-> s.par[e.at], kf |-> IF e.out = s.ppar[e.at] THEN "F-KIDS-PARENT" ELSE ""]
    [] e.op = "dump" -> LET d == Dumped(s, e.at) IN [st |-> s, ok |-> e.out = d, exp |-> d]
=============================================================================
