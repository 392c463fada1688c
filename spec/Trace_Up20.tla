---------------------------- MODULE Trace_Up20 ----------------------------
(* a 2.0 description upgraded to 3.0.0: parameters (part "req") and all else
   (part "rest")                                                           *)
EXTENDS TraceRun, Upgrade20
CONSTANT Part
TheStart(tr) == 0
docs == Traces[cur_].docs
root == Traces[cur_].root

ParamKeys == {"parameters", "requestBody"}
CompKeys == {"parameters", "requestBodies"}
OpPart(o) == IF Part = "req" THEN Only(o, ParamKeys) ELSE Drop(o, ParamKeys)
PathPart(p) ==
  LET ms == Keys(p) \cap Methods
      rest == IF Part = "req" THEN Only(p, {"parameters"}) ELSE Drop(p, Methods \cup {"parameters"})
  IN Merge(rest, Obj(TLCEval([m \in ms |-> OpPart(p[2][m])])))
Proj(x) ==
  LET paths == IF Has(x, "paths") THEN MapV(x[2]["paths"], PathPart) ELSE NONE
      c == IF Has(x, "components") THEN x[2]["components"] ELSE EMPTYO
      comps == IF Part = "req" THEN Only(c, CompKeys) ELSE Drop(c, CompKeys)
  IN Merge(Mk(<<<<"paths", paths>>, <<"components", comps>>>>), IF Part = "req" THEN EMPTYO ELSE Drop(x, {"paths", "components"}))

TheStep(s, e) ==
  LET bad == Refused(docs, root)
      exp == IF bad THEN NONE ELSE Proj(Up20(docs, root))
  IN IF Mixed(docs, root) THEN [st |-> s, ok |-> TRUE, exp |-> NONE]
     ELSE IF bad THEN [st |-> s, ok |-> e.out[1] = "err", exp |-> "refused"]
     ELSE [st |-> s, ok |-> e.out[1] = "ok" /\ Proj(e.out[2]) = exp, exp |-> exp]
===========================================================================
