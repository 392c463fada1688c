-------------------------------- MODULE Scan --------------------------------
(* Scanning a tree: which objects are visited, which handlers are called.

   scanner: [regs |-> <<registration, ...>>, res |-> has a result function]
   registration: [id |-> n, cls |-> <<types>>], in the order of registration  *)
EXTENDS Tree

(* types an object of a type also is, nearest first *)
SuperOf(v, c) ==
  CASE v = "1.2" -> IF c \in {"Parameter", "Operation", "Property"} THEN <<"DataTypeObj", "BaseObj_v1_2", "Base2">> ELSE <<"BaseObj_v1_2", "Base2">>
    [] v = "2.0" -> IF c \in {"Items", "Schema", "Parameter", "Header"} THEN <<"BaseSchema", "BaseObj_v2_0", "Base2">> ELSE <<"BaseObj_v2_0", "Base2">>
    [] v = "3.0.0" -> IF c = "Header" THEN <<"Parameter", "Base2_v3_0_0", "Base2">> ELSE <<"Base2_v3_0_0", "Base2">>

(* objects visited below a position; nothing below a leaf *)
RECURSIVE Visit(_, _, _, _, _)
Visit(G, b, x, at, leaves) ==
  LET e == Eff(b, x) IN
  CASE e[1] = "lit" -> {}
    [] e[1] = "list" -> UNION {Visit(G, Tail(e), x[2][i], Append(at, NatStr(i - 1)), leaves) : i \in 1 .. Len(x[2])}
    [] e[1] = "map" -> UNION {Visit(G, Tail(e), x[2][k], Append(at, k), leaves) : k \in Keys(x)}
    [] OTHER -> LET g == G[e[1]] IN
                {<<at, e[1]>>} \cup
                IF e[1] \in leaves THEN {}
                ELSE UNION {Visit(G, g.c[k], x[2][k], Append(at, k), leaves) : k \in {q \in Keys(x) \cap DOMAIN g.c : ~IsNull(x[2][q])}}

(* the same with pointers as composed level by level (recorded defect
   F-SCAN-NAME, inherited from the names of nested collections)             *)
RECURSIVE VisitAsIs(_, _, _, _, _, _)
VisitAsIs(G, b, x, at, ptr, leaves) ==
  LET e == Eff(b, x)
      down == IF e[1] \in leaves \/ e[1] = "lit" THEN {} ELSE KidsAsIs(G, e, x)
  IN (IF e[1] \in {"lit", "list", "map"} THEN {} ELSE {<<at, e[1], ptr>>}) \cup
     UNION {VisitAsIs(G, BAt(G, e, x, k[2]), At(x, k[2]), at \o k[2], ptr \o "/" \o k[1], leaves) : k \in down}

(* calls of one scanner for an object: for each type it is, nearest first, the
   handlers registered for it in order *)
CallsOf(sc, kind) ==
  Flatten([i \in 1 .. Len(sc.regs) |-> [j \in 1 .. Cardinality({n \in 1 .. Len(sc.regs[i].cls) : sc.regs[i].cls[n] = kind}) |-> sc.regs[i].id]])
RECURSIVE CallsFor(_, _)
CallsFor(sc, kinds) == IF kinds = <<>> THEN <<>> ELSE CallsOf(sc, kinds[1]) \o CallsFor(sc, Tail(kinds))
(* log of one object: calls, each followed by its result *)
LogOf(scs, kinds) ==
  Flatten([i \in 1 .. Len(scs) |->
     LET q == CallsFor(scs[i], kinds) IN
     Flatten([j \in 1 .. Len(q) |-> IF scs[i].res THEN <<<<i, "call", q[j]>>, <<i, "result", q[j]>>>> ELSE <<<<i, "call", q[j]>>>>])])
=============================================================================
