----------------------------- MODULE Trace_C07 -----------------------------
EXTENDS TraceRun, Compare
TheStart(tr) == 0
TheStep(s, e) ==
  LET d == Cmp(e.x, e.y, e.base, Range(e.inc), Range(e.exc)) IN
  [st |-> s, exp |-> d,
   ok |-> /\ e.pure /\ e.out[1] = "ok"
          /\ {<<e.out[2][i][1], e.out[2][i][2], e.out[2][i][3]>> : i \in 1 .. Len(e.out[2])} = d
          /\ Len(e.out[2]) = Cardinality(d)]
===========================================================================
