------------------------------- MODULE Tree -------------------------------
(* The typed tree that a document denotes under a grammar: what is dumped,
   which objects there are and of which kind, what reading a name yields. *)
EXTENDS Grammar, Values, Pointer

(* builder in force for value x: conditional wrappers are decided *)
RECURSIVE Eff(_, _)
Eff(b, x) ==
  CASE b[1] = "bool" -> IF IsBool(x) THEN <<"lit">> ELSE Eff(Tail(b), x)
    [] b[1] = "ref"  -> IF Has(x, "$ref") THEN <<"Reference">> ELSE Eff(Tail(b), x)
    [] b[1] = "str"  -> <<"lit">>
    [] b[1] = "Callback" -> <<"map", "PathItem">>
    [] OTHER -> b

EmptyC(y) == y \in {EMPTYO, EMPTYA}

RECURSIVE Ser(_, _, _)
(* what dumping the object built from x shows *)
Ser(G, b, x) ==
  LET e == Eff(b, x) IN
  CASE e[1] = "lit" -> x
    [] e[1] = "list" -> Arr([i \in 1 .. Len(x[2]) |-> Ser(G, Tail(e), x[2][i])])
    [] e[1] = "map" -> Obj([k \in Keys(x) |-> Ser(G, Tail(e), x[2][k])])
    [] OTHER ->
       LET g == G[e[1]]
           keep(k) == /\ ~IsNull(x[2][k])
                      /\ \/ k \in g.f
                         \/ k \in DOMAIN g.c /\ ~(Eff(g.c[k], x[2][k])[1] \in {"list", "map"} /\ EmptyC(x[2][k]))
       IN Obj([k \in {q \in Keys(x) : q \in g.f \cup DOMAIN g.c /\ keep(q)} |->
                 IF k \in g.f THEN x[2][k] ELSE Ser(G, g.c[k], x[2][k])])

(* recorded defect F-DUMP-BOOL: boolean children.  'true' makes the dump fail,
   'false' is left out.                                                      *)
RECURSIVE TrueChild(_, _, _)
TrueChild(G, b, x) ==
  LET e == Eff(b, x) IN
  CASE e[1] = "lit" -> FALSE
    [] e[1] = "list" -> \E i \in 1 .. Len(x[2]) : TrueChild(G, Tail(e), x[2][i])
    [] e[1] = "map" -> \E k \in Keys(x) : TrueChild(G, Tail(e), x[2][k])
    [] OTHER -> LET g == G[e[1]] IN
                \E k \in Keys(x) \cap DOMAIN g.c : \/ x[2][k] = TRUE_
                                                   \/ ~IsNull(x[2][k]) /\ TrueChild(G, g.c[k], x[2][k])
RECURSIVE SerAsIs(_, _, _)
SerAsIs(G, b, x) ==
  LET e == Eff(b, x) IN
  CASE e[1] = "lit" -> x
    [] e[1] = "list" -> Arr([i \in 1 .. Len(x[2]) |-> SerAsIs(G, Tail(e), x[2][i])])
    [] e[1] = "map" -> Obj([k \in Keys(x) |-> SerAsIs(G, Tail(e), x[2][k])])
    [] OTHER ->
       LET g == G[e[1]]
           keep(k) == /\ ~IsNull(x[2][k])
                      /\ \/ k \in g.f
                         \/ /\ k \in DOMAIN g.c /\ x[2][k] # FALSE_
                            /\ ~(Eff(g.c[k], x[2][k])[1] \in {"list", "map"} /\ EmptyC(x[2][k]))
       IN Obj([k \in {q \in Keys(x) : q \in g.f \cup DOMAIN g.c /\ keep(q)} |->
                 IF k \in g.f THEN x[2][k] ELSE SerAsIs(G, g.c[k], x[2][k])])

RECURSIVE Nodes(_, _, _, _)
(* every definition object: its names from the root and its kind *)
Nodes(G, b, x, at) ==
  LET e == Eff(b, x) IN
  CASE e[1] = "lit" -> {}
    [] e[1] = "list" -> UNION {Nodes(G, Tail(e), x[2][i], Append(at, NatStr(i - 1))) : i \in 1 .. Len(x[2])}
    [] e[1] = "map" -> UNION {Nodes(G, Tail(e), x[2][k], Append(at, k)) : k \in Keys(x)}
    [] OTHER -> LET g == G[e[1]] IN
                {<<at, e[1]>>} \cup
                UNION {Nodes(G, g.c[k], x[2][k], Append(at, k)) : k \in {q \in Keys(x) \cap DOMAIN g.c : ~IsNull(x[2][q])}}

RECURSIVE Conts(_, _, _, _)
(* every collection: names from the root, "list" or "map" *)
Conts(G, b, x, at) ==
  LET e == Eff(b, x) IN
  CASE e[1] = "lit" -> {}
    [] e[1] = "list" -> {<<at, "list">>} \cup UNION {Conts(G, Tail(e), x[2][i], Append(at, NatStr(i - 1))) : i \in 1 .. Len(x[2])}
    [] e[1] = "map" -> {<<at, "map">>} \cup UNION {Conts(G, Tail(e), x[2][k], Append(at, k)) : k \in Keys(x)}
    [] OTHER -> LET g == G[e[1]] IN
                UNION {Conts(G, g.c[k], x[2][k], Append(at, k)) : k \in {q \in Keys(x) \cap DOMAIN g.c : ~IsNull(x[2][q])}}

(* nearest definition objects below a position, by relative pointer *)
RECURSIVE Near(_, _, _, _)
Near(G, b, x, rel) ==
  LET e == Eff(b, x) IN
  CASE e[1] = "lit" -> {}
    [] e[1] = "list" -> UNION {Near(G, Tail(e), x[2][i], Append(rel, NatStr(i - 1))) : i \in 1 .. Len(x[2])}
    [] e[1] = "map" -> UNION {Near(G, Tail(e), x[2][k], Append(rel, k)) : k \in Keys(x)}
    [] OTHER -> {rel}
Children(G, b, x) ==
  LET e == Eff(b, x) IN
  CASE e[1] = "lit" -> {}
    [] e[1] \in {"list", "map"} -> Near(G, e, x, <<>>)
    [] OTHER -> LET g == G[e[1]] IN
                UNION {Near(G, g.c[k], x[2][k], <<k>>) : k \in {q \in Keys(x) \cap DOMAIN g.c : ~IsNull(x[2][q])}}

(* recorded defect F-CHILD-NAME: names composed level by level from names
   that are composed (and escaped) already                                  *)
RECURSIVE KidsAsIs(_, _, _)
KidsAsIs(G, b, x) ==
  LET e == Eff(b, x)
      one(k, cb, y) ==
        LET c == Eff(cb, y) IN
        CASE c[1] = "lit" -> {}
          [] c[1] \in {"list", "map"} -> {<<RelPtr(<<k, n[1]>>), <<k>> \o n[2]>> : n \in KidsAsIs(G, c, y)}
          [] OTHER -> {<<k, <<k>>>>}
  IN CASE e[1] = "lit" -> {}
       [] e[1] = "list" -> UNION {one(NatStr(i - 1), Tail(e), x[2][i]) : i \in 1 .. Len(x[2])}
       [] e[1] = "map" -> UNION {one(k, Tail(e), x[2][k]) : k \in Keys(x)}
       [] OTHER -> LET g == G[e[1]] IN
                   UNION {one(k, g.c[k], x[2][k]) : k \in {q \in Keys(x) \cap DOMAIN g.c : ~IsNull(x[2][q])}}

(* what reading name n of an object of kind c built from x yields *)
Read1(G, c, x, n) ==
  LET g == G[c]
      k == IF n \in DOMAIN g.a THEN g.a[n] ELSE n
  IN IF k \in g.f
     THEN IF Has(x, k) THEN IF k \in g.restr THEN <<"err">> ELSE <<"val", x[2][k]>>
          ELSE IF k \in g.req THEN <<"err">>
          ELSE <<"val", IF k \in DOMAIN g.dflt THEN g.dflt[k] ELSE NULL>>
     ELSE IF ~Given(x, k) THEN <<"val", NULL>>
     ELSE LET e == Eff(g.c[k], x[2][k]) IN
          CASE e[1] = "lit" -> <<"val", x[2][k]>>
            [] e[1] = "list" -> <<"list", Len(x[2][k][2])>>
            [] e[1] = "map" -> <<"map", Cardinality(Keys(x[2][k]))>>
            [] OTHER -> <<"obj", e[1]>>
Names_(G, c) == G[c].f \cup DOMAIN G[c].c \cup DOMAIN G[c].a

(* builder in force at a position, NONE-like <<"lit">> inside plain values *)
RECURSIVE BAt(_, _, _, _)
BAt(G, b, x, names) ==
  LET e == Eff(b, x) IN
  IF names = <<>> THEN e
  ELSE CASE e[1] = "lit" -> <<"lit">>
         [] e[1] = "list" -> BAt(G, Tail(e), At(x, <<names[1]>>), Tail(names))
         [] e[1] = "map" -> BAt(G, Tail(e), At(x, <<names[1]>>), Tail(names))
         [] OTHER -> IF names[1] \in DOMAIN G[e[1]].c
                     THEN BAt(G, G[e[1]].c[names[1]], At(x, <<names[1]>>), Tail(names)) ELSE <<"lit">>
===========================================================================
