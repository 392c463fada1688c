--------------------------- MODULE Trace_LinksUp ---------------------------
(* What a 2.0 description is linked to once it is upgraded to 3.0.0: the
   references of the upgraded description (and of what they lead to in other
   documents) with the objects they are linked to.                          *)
EXTENDS TraceRun, Upgrade20
CONSTANT Part
L == INSTANCE Links
TheStart(tr) == 0
tr == Traces[cur_]
G3 == L!Gram("3.0.0")
SetOf(q) == {q[i] : i \in DOMAIN q}

(* what a part of another document is in 3.0.0 *)
PieceUp(ds, q) ==
  LET x == L!Val(ds, <<q[1], q[2]>>)
      b == q[3]
      k == b[Len(b)]
  IN IF x = MISSING THEN MISSING
     ELSE CASE k = "Schema" -> SchemaUp(ds, tr.root, x, q[1])
            [] k = "Parameter" -> IF IsRef(x) THEN Ref(ds, tr.root, RefOf(x), q[1]) ELSE ParamUp(x)
            [] k = "Response" -> ResponseUp(ds, tr.root, x, q[1], {})
            [] k = "PathItem" -> PathUp(ds, tr.root, x, q[1], q[1], {}, {})
            [] OTHER -> MISSING
ValUp(ds, T, q) == IF q[1] = tr.root THEN At(T, q[2]) ELSE PieceUp(ds, q)
RefsUp(ds, T, q) ==
  LET x == ValUp(ds, T, q) IN IF x = MISSING THEN {} ELSE L!RefsIn(G3, q[3], x, q[1], q[2])
RECURSIVE CloseUp(_, _, _, _)
CloseUp(ds, T, acc, new) ==
  IF new = {} THEN acc
  ELSE LET more == {LET a == L!Target(n.p, n.r) IN <<a[1], a[2], n.b>> : n \in UNION {RefsUp(ds, T, q) : q \in new}}
       IN CloseUp(ds, T, acc \cup new, more \ (acc \cup new))

(* a reference may be written with or without the document it is in *)
Full_(r, u) == IF StartsWith(r, "#") THEN u \o r ELSE r
RECURSIVE Whole(_, _, _)
Whole(b, x, u) ==
  LET e == L!Eff(b, x) IN
  CASE e[1] = "lit" -> x
    [] e[1] = "list" -> Arr([i \in 1 .. Len(x[2]) |-> Whole(Tail(e), x[2][i], u)])
    [] e[1] = "map" -> Obj(TLCEval([k \in Keys(x) |-> Whole(Tail(e), x[2][k], u)]))
    [] OTHER -> Obj(TLCEval([k \in Keys(x) |->
                  IF k = "$ref" /\ IsStr(x[2][k]) THEN S(Full_(x[2][k][2], u))
                  ELSE IF k \in DOMAIN G3[e[1]].c THEN Whole(G3[e[1]].c[k], x[2][k], u) ELSE x[2][k]]))

Check(ds, T, pieces, o) ==
  LET all == UNION {RefsUp(ds, T, q) : q \in pieces}
      want == {<<n.p, Full_(n.r, n.p[1]), L!Target(n.p, n.r)>> : n \in all}
      got == {<<r.p, Full_(r.ref, r.p[1]), r.norm>> : r \in SetOf(o.refs)}
      links == {<<r.norm, r.id>> : r \in SetOf(o.refs)}
      seen == {<<s.p, s.id>> : s \in SetOf(o.sights)} \cup links
      kinds == {<<s.p, s.cls>> : s \in SetOf(o.sights)}
      kind(q) == LET e == L!Eff(q[3], ValUp(ds, T, q)) IN <<<<q[1], q[2]>>, e[1]>>
      wrong == {q \in SetOf(o.pieces) : q.p[1] # tr.root /\ \A w \in pieces : <<w[1], w[2]>> = q.p => Whole(w[3], q.val, w[1]) # Whole(w[3], ValUp(ds, T, w), w[1])}
      twice == {a \in seen : \E b \in seen : a[2] = b[2] /\ a[1] # b[1]}
               \cup {a \in links : \E b \in links : a[1] = b[1] /\ a[2] # b[2]}
               \cup {a \in seen : a[1][1] = tr.root /\ \E b \in seen : a[1] = b[1] /\ a[2] # b[2]}
      ids(p) == {s[2] : s \in {w \in seen : w[1] = p}}
      unfound == {a \in SetOf(o.asked) :
                    LET n == Moved(ds, tr.root, L!Target(<<tr.root, <<>>>>, a.ref)[2])
                    IN At(T, n) # MISSING /\ (a.id \notin ids(<<tr.root, n>>) \/ a.at # <<tr.root, n>>)}
      badkind == {q \in pieces : kind(q) \notin kinds /\ ~(q[1] = tr.root /\ Len(q[2]) > 1 /\ q[2][2] = "requestBodies")}
  IN [ok |-> want = got /\ twice = {} /\ wrong = {} /\ badkind = {} /\ unfound = {},
      exp |-> [unfound |-> unfound, lost |-> want \ got, extra |-> got \ want, twice |-> twice, wrong |-> {q.p : q \in wrong}, kind |-> {kind(q) : q \in badkind}]]
RECURSIVE ChainUp(_, _, _, _)
ChainUp(ds, T, q, seen) ==
  LET x == ValUp(ds, T, q)
      r == L!RefText(x)
      a == L!Target(<<q[1], q[2]>>, r)
  IN IF \E i \in DOMAIN seen : <<seen[i][1], seen[i][2]>> = <<q[1], q[2]>> THEN [q |-> seen, cyc |-> TRUE]
     ELSE IF r = "" THEN [q |-> Append(seen, q), cyc |-> FALSE]
     ELSE ChainUp(ds, T, <<a[1], a[2], q[3]>>, Append(seen, q))
CheckDeref(ds, T, pieces, o) ==
  LET all == UNION {RefsUp(ds, T, q) : q \in pieces}
      idat(p) == {s.id : s \in {w \in SetOf(o.sights) : w.p = p}}
      okref(n) ==
        LET a == L!Target(n.p, n.r)
            c == ChainUp(ds, T, <<a[1], a[2], n.b>>, <<<<n.p[1], n.p[2], n.b>>>>)
            l == c.q[Len(c.q)]
            g == {r \in SetOf(o.refs) : r.p = n.p}
        IN g # {} /\ \A r \in g : IF c.cyc THEN r.end = <<"err", "CycleDetectionError">>
                                  ELSE r.end[1] = "ok" /\ r.end[2] \in idat(<<l[1], l[2]>>)
      bad == {n \in all : ~okref(n)}
  IN [ok |-> bad = {}, exp |-> bad]
FinalUp(ds, T, p) ==
  LET c == ChainUp(ds, T, <<p[1], p[2], <<"PathItem">>>>, <<>>).q
      val(i) == ValUp(ds, T, c[i])
      is(k) == {i \in 1 .. Len(c) : L!Full_(G3["PathItem"].c[k], val(i), k)}
      first(k) == CHOOSE i \in is(k) : \A j \in is(k) : i <= j
  IN [k \in {w \in DOMAIN G3["PathItem"].c : is(w) # {}} |->
        LET i == first(k) IN <<c[i][1], Whole(G3["PathItem"].c[k], val(i)[2][k], c[i][1])>>]
CheckFinal(ds, T, o) ==
  LET okf(f) == /\ f.out[1] = "ok"
                /\ LET w == FinalUp(ds, T, f.p)
                       v == f.out[2]
                   IN /\ Keys(v) = DOMAIN w
                      /\ \A k \in DOMAIN w : Whole(G3["PathItem"].c[k], v[2][k], w[k][1]) = w[k][2]
      bad == {f \in SetOf(o.finals) : ~okf(f)}
  IN [ok |-> bad = {}, exp |-> {<<f.p, Obj([k \in DOMAIN FinalUp(ds, T, f.p) |-> FinalUp(ds, T, f.p)[k][2]])>> : f \in bad}]
TheStep(s, e) ==
  LET ds == tr.docs
      lost == L!Dangling(ds, L!Needed(L!Gram("2.0"), ds, {<<tr.root, <<>>, <<"Swagger">>>>}))
      T == Up20(ds, tr.root)
      start == {<<tr.root, <<>>, <<"OpenApi">>>>}
  IN IF Mixed(ds, tr.root) THEN [st |-> s, ok |-> TRUE, exp |-> NONE]
     ELSE IF lost \/ Refused(ds, tr.root) THEN [st |-> s, ok |-> e.out[1] = "err", exp |-> "refused"]
     ELSE IF e.out = <<"err", "CycleDetectionError">>
     THEN LET G2 == L!Gram("2.0") IN
          (* a body whose schema leads back to itself has no form *)
          [st |-> s, ok |-> \E n \in L!AllRefs(G2, ds, L!Needed(G2, ds, {<<tr.root, <<>>, <<"Swagger">>>>})) : L!Cyclic(ds, n.p), exp |-> "linked"]
     ELSE IF e.out[1] # "ok" THEN [st |-> s, ok |-> FALSE, exp |-> "linked"]
     ELSE LET r == CASE Part = "links" -> Check(ds, T, CloseUp(ds, T, {}, start), e.out[2])
                     [] Part = "deref" -> CheckDeref(ds, T, CloseUp(ds, T, {}, start), e.out[2])
                     [] OTHER -> CheckFinal(ds, T, e.out[2])
          IN [st |-> s, ok |-> r.ok, exp |-> r.exp]
===========================================================================
