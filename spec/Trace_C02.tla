----------------------------- MODULE Trace_C02 -----------------------------
EXTENDS TraceRun, Url
TheStart(tr) == 0
Outcome(e) ==
  CASE e.op = "resolve" -> Resolve(e.ref, e.base)
    [] e.op = "dirname" -> UrlDirname(e.url)
    [] e.op = "join"    -> UrlJoin(e.url, e.name)
    [] e.op = "undot"   -> Root(e.url) \o "/" \o Join(DotFold(DropSeq(Split(PathOf(e.url), "/"), 1), <<>>, FALSE), "/") \o QueryOf(e.url)
TheStep(s, e) ==
  LET x == Outcome(e) IN [st |-> s, ok |-> e.out = <<"ok", x>>, exp |-> x]
============================================================================
