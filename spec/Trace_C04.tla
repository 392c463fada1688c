----------------------------- MODULE Trace_C04 -----------------------------
(* positions: path, parent, children and resolution of every part *)
EXTENDS TraceRun, Tree
TheStart(tr) == 0
doc == Traces[cur_].doc
G == Gram(Traces[cur_].v)
root == <<Traces[cur_].cls>>
base == Traces[cur_].base

Rng(q) == {q[i] : i \in 1 .. Len(q)}

Node(s, e) ==
  LET b == BAt(G, root, doc, e.at)
      x == At(doc, e.at)
      kind == IF b[1] \in {"list", "map"} THEN b[1] ELSE b[1]
      kids == {<<RelPtr(r), e.at \o r>> : r \in Children(G, b, x)}
      exp == [kind |-> kind, path |-> Compose(base, e.at),
              parent |-> IF e.at = <<>> THEN <<"none">> ELSE <<"at", FrontOf(e.at)>>,
              same |-> TRUE, kids |-> kids]
      got == {<<e.kids[i][1], e.kids[i][2]>> : i \in 1 .. Len(e.kids)}
      asis == {<<n[1], e.at \o n[2]>> : n \in KidsAsIs(G, b, x)}
      pos == e.kind = exp.kind /\ e.path = exp.path /\ e.same /\ Len(e.kids) = Cardinality(kids)
      (* the enumeration of a collection may name its elements as they are *)
      names == (got = kids) \/ (b[1] \in {"list", "map"} /\ got = asis)
      rest == pos /\ names
      ok == rest /\ e.parent = exp.parent
  IN [st |-> s, ok |-> ok, exp |-> exp,
      kf |-> IF pos /\ ~names /\ e.parent = exp.parent /\ got = asis THEN "F-CHILD-NAME"
             ELSE IF rest /\ ~ok /\ e.parent = <<"none">> /\ x \in {EMPTYO, EMPTYA} /\ b[1] \in {"list", "map"}
                /\ BAt(G, root, doc, FrontOf(e.at))[1] \notin {"list", "map"}
             THEN "F-PARENT-EMPTY" ELSE ""]

Prim(x) == x[1] \in {"s", "n", "b"}
(* the first primitive met on the way, MISSING if none *)
RECURSIVE Met(_, _)
Met(x, names) == IF x = MISSING \/ Prim(x) \/ names = <<>> THEN x ELSE Met(At(x, <<names[1]>>), Tail(names))

Follow(s, e) ==
  LET x == At(doc, e.at)
      n == Len(e.at)
      b == BAt(G, root, doc, e.at)
      hb == IF n = 0 THEN <<"lit">> ELSE BAt(G, root, doc, FrontOf(e.at))
      cls == hb[1]
      known == \/ hb[1] \in {"list", "map"}
               \/ hb = <<"lit">>
               \/ cls \in DOMAIN G /\ LastOf(e.at) \in G[cls].f \cup DOMAIN G[cls].c
      exists == x # MISSING /\ (\A i \in 1 .. n : LET p == SubSeq(e.at, 1, i - 1)
                                                     c == BAt(G, root, doc, p)[1]
                                                 IN c \in DOMAIN G => e.at[i] \in G[c].f \cup DOMAIN G[c].c)
      (* a name the version defines but the document leaves out *)
      dflt == IF cls \in DOMAIN G /\ LastOf(e.at) \in DOMAIN G[cls].dflt THEN G[cls].dflt[LastOf(e.at)] ELSE NULL
      node == exists /\ b # <<"lit">> /\ ~IsNull(x)
      exp == IF node THEN {<<"node", e.at>>}
             ELSE IF exists THEN {<<"val", x>>}
             ELSE {<<"val", NULL>>, <<"val", dflt>>}
      ok == IF exists THEN e.out \in exp ELSE e.out[1] = "err" \/ e.out \in exp
      m == Met(doc, e.at)
      (* defaults of absent fields met on the way *)
      dmet == {G[BAt(G, root, doc, SubSeq(e.at, 1, i - 1))[1]].dflt[e.at[i]] :
                 i \in {j \in 1 .. n : LET c == BAt(G, root, doc, SubSeq(e.at, 1, j - 1))[1]
                                       IN c \in DOMAIN G /\ e.at[j] \in DOMAIN G[c].dflt}}
  IN [st |-> s, ok |-> ok, exp |-> exp,
      kf |-> IF ok THEN ""
             ELSE IF exists /\ b = <<"lit">> /\ hb[1] \in {"list", "map"} /\ e.out = <<"err", "AttributeError">> THEN "F-RESOLVE-PRIM"
             ELSE IF ~exists /\ m # MISSING /\ Prim(m) /\ e.out = <<"val", m>> THEN "F-RESOLVE-PRIM"
             ELSE IF ~exists /\ e.out[1] = "val" /\ e.out[2] \in dmet THEN "F-RESOLVE-PRIM"
             ELSE ""]

TheStep(s, e) == CASE e.op = "node" -> Node(s, e) [] e.op = "follow" -> Follow(s, e)
===========================================================================
