----------------------------- MODULE Trace_C01 -----------------------------
EXTENDS TraceRun, Url
TheStart(tr) == 0
Outcome(e) ==
  CASE e.op = "compose" -> <<"ok", Compose(e.base, e.toks)>>
    [] e.op = "split"   -> <<"ok", SplitPtr(e.ptr)>>
    [] e.op = "jr"      -> JrSplit(e.ref, e.cwd)
    [] e.op = "norm"    -> NormUrl(e.url, e.cwd)
    [] e.op = "path"    -> <<"ok", FileUrl(e.path)>>
TheStep(s, e) ==
  LET x == Outcome(e)
      same == IF x[1] = "err" THEN e.out[1] = "err" ELSE e.out = x
  IN [st |-> s, ok |-> same /\ e.pure, exp |-> x]
============================================================================
