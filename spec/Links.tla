------------------------------- MODULE Links -------------------------------
(* References between documents: which there are once a document is loaded,
   what each designates, where chains of them end, and what a path item
   with a reference finally is.

   A place is <<address, names>>.  A piece <<address, names, builder>> is a
   part of a document that is loaded as such; 'ds' are the documents of one
   version (grammar G).                                                    *)
EXTENDS Tree, Url

Place(a) == <<DocPart(a), Names("#" \o Fragment(a))>>
Val(ds, p) == IF p[1] \in DOMAIN ds THEN At(ds[p[1]], p[2]) ELSE MISSING
RefText(x) == IF Has(x, "$ref") /\ IsStr(x[2]["$ref"]) THEN x[2]["$ref"][2] ELSE ""
Target(p, r) == Place(Resolve(r, p[1]))

RECURSIVE RefsIn(_, _, _, _, _)
(* every reference below x at place <<u, at>>:  [p, r, b: what it must be] *)
RefsIn(G, b, x, u, at) ==
  LET e == Eff(b, x) IN
  CASE e[1] = "lit" -> {}
    [] e[1] = "list" -> UNION {RefsIn(G, Tail(e), x[2][i], u, Append(at, NatStr(i - 1))) : i \in 1 .. Len(x[2])}
    [] e[1] = "map" -> UNION {RefsIn(G, Tail(e), x[2][k], u, Append(at, k)) : k \in Keys(x)}
    [] e[1] = "Reference" -> {[p |-> <<u, at>>, r |-> RefText(x), b |-> IF b[1] = "bool" THEN Tail(b) ELSE b]}
    [] OTHER -> LET g == G[e[1]] IN
                (IF RefText(x) # "" /\ "$ref" \in g.f THEN {[p |-> <<u, at>>, r |-> RefText(x), b |-> e]} ELSE {}) \cup
                UNION {RefsIn(G, g.c[k], x[2][k], u, Append(at, k)) : k \in {q \in Keys(x) \cap DOMAIN g.c : ~IsNull(x[2][q])}}

Refs(G, ds, piece) == RefsIn(G, piece[3], Val(ds, <<piece[1], piece[2]>>), piece[1], piece[2])
Next1(G, ds, pieces) ==
  {<<Target(n.p, n.r)[1], Target(n.p, n.r)[2], n.b>> : n \in UNION {Refs(G, ds, q) : q \in {w \in pieces : Val(ds, <<w[1], w[2]>>) # MISSING}}}
RECURSIVE Close(_, _, _, _)
(* all pieces needed, starting with those given; acc: done *)
Close(G, ds, acc, new) ==
  IF new = {} THEN acc
  ELSE LET more == Next1(G, ds, new) IN Close(G, ds, acc \cup new, more \ (acc \cup new))
Needed(G, ds, pieces) == Close(G, ds, {}, pieces)
Dangling(ds, pieces) == \E q \in pieces : Val(ds, <<q[1], q[2]>>) = MISSING
AllRefs(G, ds, pieces) == UNION {Refs(G, ds, q) : q \in pieces}
DocsOf(pieces) == {q[1] : q \in pieces}

(* place of the last object of the chain that starts at p; <<"cycle">> if
   the chain comes back                                                     *)
RECURSIVE Chain(_, _, _)
Chain(ds, p, seen) ==
  LET x == Val(ds, p) IN
  IF p \in Range(seen) THEN seen
  ELSE IF RefText(x) = "" THEN Append(seen, p)
  ELSE Chain(ds, Target(p, RefText(x)), Append(seen, p))
ChainOf(ds, p) == Chain(ds, p, <<>>)
Cyclic(ds, p) == LET c == ChainOf(ds, p) IN RefText(Val(ds, c[Len(c)])) # ""
End(ds, p) == LET c == ChainOf(ds, p) IN c[Len(c)]

(* what a path item finally is: for every child the first one in the chain *)
Childs(G) == DOMAIN G["PathItem"].c
Full_(b, x, k) == Given(x, k) /\ ~(Eff(b, x[2][k])[1] \in {"list", "map"} /\ EmptyC(x[2][k]))
Holder(G, ds, p, k) ==
  LET c == ChainOf(ds, p)
      is == {i \in 1 .. Len(c) : Full_(G["PathItem"].c[k], Val(ds, c[i]), k)}
  IN IF is = {} THEN <<>> ELSE c[CHOOSE i \in is : \A j \in is : i <= j]

(* ---- what is shown of a piece: as written, but references to other
   documents written absolutely (where they are rewritten on load)          *)
ShownRef(r, u, abs) == IF ~abs \/ StartsWith(r, "#") THEN r
                       ELSE LET a == Resolve(r, u) IN IF Contains(a, "#") THEN a ELSE a \o "#"
RECURSIVE Shown(_, _, _, _, _)
Shown(G, b, x, u, abs) ==
  LET e == Eff(b, x) IN
  CASE e[1] = "lit" -> x
    [] e[1] = "list" -> Arr([i \in 1 .. Len(x[2]) |-> Shown(G, Tail(e), x[2][i], u, abs)])
    [] e[1] = "map" -> Obj(TLCEval([k \in Keys(x) |-> Shown(G, Tail(e), x[2][k], u, abs)]))
    [] OTHER ->
       LET g == G[e[1]]
           keep(k) == /\ ~IsNull(x[2][k])
                      /\ \/ k \in g.f
                         \/ k \in DOMAIN g.c /\ ~(Eff(g.c[k], x[2][k])[1] \in {"list", "map"} /\ EmptyC(x[2][k]))
       IN Obj(TLCEval([k \in {q \in Keys(x) : q \in g.f \cup DOMAIN g.c /\ keep(q)} |->
                 IF k = "$ref" /\ IsStr(x[2][k]) /\ x[2][k][2] # "" THEN S(ShownRef(x[2][k][2], u, abs))
                 ELSE IF k \in g.f THEN x[2][k] ELSE Shown(G, g.c[k], x[2][k], u, abs)]))
===========================================================================
