----------------------------- MODULE Trace_C03 -----------------------------
EXTENDS TraceRun, Tree
TheStart(tr) == 0
doc == Traces[cur_].doc
G == Gram(Traces[cur_].v)
root == <<Traces[cur_].cls>>
R(s, ok, exp) == [st |-> s, ok |-> ok, exp |-> exp]

Dump(s, e) ==
  LET x == Ser(G, root, doc) IN
  IF e.out = <<"ok", x>> THEN R(s, TRUE, 0)
  ELSE [st |-> s, ok |-> FALSE, exp |-> x,
        kf |-> IF \/ TrueChild(G, root, doc) /\ e.out = <<"err", "AttributeError">>
                  \/ ~TrueChild(G, root, doc) /\ e.out = <<"ok", SerAsIs(G, root, doc)>>
               THEN "F-DUMP-BOOL" ELSE ""]

Kinds(s, e) ==
  LET x == {<<Ptr(n[1]), n[2]>> : n \in Nodes(G, root, doc, <<>>)} IN
  R(s, {<<e.out[i][1], e.out[i][2]>> : i \in 1 .. Len(e.out)} = x /\ Len(e.out) = Cardinality(x), x)

Attrs(s, e) ==
  LET x == At(doc, e.at)
      y == [n \in Names_(G, e.cls) |-> Read1(G, e.cls, x, n)]
  IN R(s, e.out = y, y)

TheStep(s, e) == CASE e.op = "dump" -> Dump(s, e) [] e.op = "kinds" -> Kinds(s, e) [] e.op = "attrs" -> Attrs(s, e)
===========================================================================
