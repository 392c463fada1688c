------------------------------ MODULE Fields ------------------------------
(* Object types declared with fields, children and internal values, and the
   objects that are built from them.

   type:   [f |-> name -> [key, required, restricted, readonly, dflt],
            c |-> name -> [key, b, required, dflt],
            i |-> name -> [alias, key, dflt]]           merged declarations
   builder b: <<"obj", t>> <<"lit">> <<"list", ...>> <<"map", ...>>
              <<"ifa", t, ...>>  type t if the value has the key "a"
   node:   [k |-> "obj", t, doc, ch, int, grp, id]  ch by document key
           [k |-> "list"|"map", el, id]   [k |-> "lit", v, id]
   id is the number under which an object was prepared, 0 for one that is
   built from the document.                                                 *)
EXTENDS Values, Pointer

(* declarations of the bases, the first one that has a name wins *)
RECURSIVE FromBases(_, _)
FromBases(q, part) ==
  IF q = <<>> THEN <<>>
  ELSE LET x == q[1][part]
           y == FromBases(Tail(q), part)
       IN TLCEval([n \in DOMAIN x \cup DOMAIN y |-> IF n \in DOMAIN x THEN x[n] ELSE y[n]])
Declared(own, q, part) ==
  LET y == FromBases(q, part) IN TLCEval([n \in DOMAIN own \cup DOMAIN y |-> IF n \in DOMAIN own THEN own[n] ELSE y[n]])
NewType(ts, bs, f, c, i) ==
  LET q == [j \in 1 .. Len(bs) |-> ts[bs[j]]] IN
  [f |-> Declared(f, q, "f"), c |-> Declared(c, q, "c"), i |-> Declared(i, q, "i")]
With(own, n, d) == TLCEval([m \in DOMAIN own \cup {n} |-> IF m = n THEN d ELSE own[m]])

(* prepared objects: set of [r, x]; r is the position that is left, either
   names <<"n", ..>>, or (the code as it is) a pointer <<"s", ..>> of which
   the remainder is decoded at every level again                            *)
Here(r) == IF r[1] = "n" THEN r[2] = <<>> ELSE r[2] = ""
FirstOf(r) == IF r[1] = "n" THEN r[2][1] ELSE DecTok(Split(r[2], "/")[1])
RestOf(r) == IF r[1] = "n" THEN <<"n", Tail(r[2])>>
             ELSE <<"s", LET q == Split(r[2], "/") IN IF Len(q) = 1 THEN "" ELSE DecTok(Join(Tail(q), "/"))>>
Below(o, k) == {[r |-> RestOf(p.r), x |-> p.x] : p \in {p \in o : ~Here(p.r) /\ FirstOf(p.r) = k}}
AtHere(o) == {p \in o : Here(p.r)}
Hollow(n) == n.k \in {"list", "map"} /\ (IF n.k = "list" THEN n.el = <<>> ELSE DOMAIN n.el = {})

ERR == [k |-> "err"]
IsErr(n) == n.k = "err"
Lit(v) == [k |-> "lit", v |-> v, id |-> 0]

RECURSIVE Build(_, _, _, _)
RECURSIVE Child(_, _, _, _, _)
(* what stands at a position: the object prepared for it, or a new one *)
Child(ts, b, x, o, asis) ==
  LET h == {p \in AtHere(o) : ~asis \/ ~Hollow(p.x)} IN
  IF h # {} THEN (CHOOSE p \in h : TRUE).x
  ELSE IF b[1] = "lit" THEN Lit(x) ELSE Build(ts, b, x, o)
Build(ts, b, x, o) ==
  LET asis == \E p \in o : p.r[1] = "s" IN
  CASE b[1] = "lit" -> Lit(x)
    [] b[1] = "ifa" -> IF Has(x, "a") THEN Build(ts, <<"obj", b[2]>>, x, o) ELSE Build(ts, Tail(Tail(b)), x, o)
    [] AtHere(o) # {} -> ERR
    [] b[1] = "list" ->
         IF ~IsArr(x) THEN ERR
         ELSE LET q == TLCEval([j \in 1 .. Len(x[2]) |-> Child(ts, Tail(b), x[2][j], Below(o, NatStr(j - 1)), asis)])
              IN IF \E j \in 1 .. Len(q) : IsErr(q[j]) THEN ERR ELSE [k |-> "list", el |-> q, id |-> 0]
    [] b[1] = "map" ->
         IF ~IsObj(x) THEN ERR
         ELSE LET q == TLCEval([m \in Keys(x) |-> Child(ts, Tail(b), x[2][m], Below(o, m), asis)])
              IN IF \E m \in DOMAIN q : IsErr(q[m]) THEN ERR ELSE [k |-> "map", el |-> q, id |-> 0]
    [] OTHER ->
         LET c == ts[b[2]].c
             val(d) == LET y == IF Has(x, d.key) THEN x[2][d.key] ELSE NULL IN IF IsNull(y) THEN d.dflt ELSE y
             prepared(d) == \E p \in AtHere(Below(o, d.key)) : ~asis \/ ~Hollow(p.x)
             there == {n \in DOMAIN c : prepared(c[n]) \/ ~IsNull(val(c[n]))}
             q == TLCEval([key \in {c[n].key : n \in there} |->
                     LET n == CHOOSE n \in there : c[n].key = key IN Child(ts, c[n].b, val(c[n]), Below(o, key), asis)])
         IN IF \/ \E n \in DOMAIN c : c[n].required /\ ~Has(x, c[n].key) /\ ~prepared(c[n])
               \/ \E key \in DOMAIN q : IsErr(q[key])
            THEN ERR
            ELSE [k |-> "obj", t |-> b[2], doc |-> x, ch |-> q, int |-> <<>>, grp |-> <<>>, id |-> 0]

(* every position: names by which it is reached, kind, type, prepared number *)
RECURSIVE Shape(_, _, _)
Shape(ts, n, at) ==
  CASE n.k = "lit" -> {}
    [] n.k = "list" -> {<<at, "list", 0, n.id>>} \cup UNION {Shape(ts, n.el[j], Append(at, NatStr(j - 1))) : j \in 1 .. Len(n.el)}
    [] n.k = "map" -> {<<at, "map", 0, n.id>>} \cup UNION {Shape(ts, n.el[m], Append(at, m)) : m \in DOMAIN n.el}
    [] OTHER -> {<<at, "obj", n.t, n.id>>} \cup
                UNION {Shape(ts, n.ch[ts[n.t].c[m].key], Append(at, m)) : m \in {m \in DOMAIN ts[n.t].c : ts[n.t].c[m].key \in DOMAIN n.ch}}

RECURSIVE Find(_, _, _)
Find(ts, n, at) ==
  IF at = <<>> THEN n
  ELSE Find(ts, CASE n.k = "list" -> n.el[ToNat(at[1]) + 1] [] n.k = "map" -> n.el[at[1]] [] OTHER -> n.ch[ts[n.t].c[at[1]].key], Tail(at))
RECURSIVE Chg(_, _, _, _)
Chg(ts, n, at, m) ==
  IF at = <<>> THEN m
  ELSE CASE n.k = "list" -> [n EXCEPT !.el[ToNat(at[1]) + 1] = Chg(ts, n.el[ToNat(at[1]) + 1], Tail(at), m)]
         [] n.k = "map" -> [n EXCEPT !.el[at[1]] = Chg(ts, n.el[at[1]], Tail(at), m)]
         [] OTHER -> LET key == ts[n.t].c[at[1]].key IN [n EXCEPT !.ch[key] = Chg(ts, n.ch[key], Tail(at), m)]

(* reading a name *)
RECURSIVE Read(_, _, _)
Read(ts, n, name) ==
  LET y == ts[n.t] IN
  CASE name \in DOMAIN y.c -> IF y.c[name].key \in DOMAIN n.ch THEN
                                 (IF n.ch[y.c[name].key].k = "lit" THEN <<"val", n.ch[y.c[name].key].v>> ELSE <<"node", name>>)
                              ELSE IF y.c[name].required /\ ~Has(n.doc, y.c[name].key) THEN <<"err">> ELSE <<"val", NULL>>
    [] name \in DOMAIN y.f -> LET d == y.f[name] IN
                              IF Has(n.doc, d.key) THEN IF d.restricted THEN <<"err">> ELSE <<"val", n.doc[2][d.key]>>
                              ELSE IF d.required THEN <<"err">> ELSE <<"val", d.dflt>>
    [] name \in DOMAIN y.i -> LET d == y.i[name] IN
                              IF d.alias THEN Read(ts, n, d.key)
                              ELSE IF d.key \in DOMAIN n.int THEN <<"val", n.int[d.key]>> ELSE <<"val", d.dflt>>
    [] OTHER -> <<"err">>
(* writing a plain value under a name: the changed node, or an error *)
RECURSIVE Write(_, _, _, _)
Write(ts, n, name, v) ==
  LET y == ts[n.t] IN
  CASE name \in DOMAIN y.c -> ERR
    [] name \in DOMAIN y.f -> IF y.f[name].readonly THEN ERR
                              ELSE [n EXCEPT !.doc = Obj(With(n.doc[2], y.f[name].key, v))]
    [] name \in DOMAIN y.i -> LET d == y.i[name] IN
                              IF d.alias THEN Write(ts, n, d.key, v) ELSE [n EXCEPT !.int = With(n.int, d.key, v)]
    [] OTHER -> ERR

RECURSIVE Out(_, _)
(* the dump: fields that are present and children, under their document keys *)
RECURSIVE OutOk(_, _)
OutOk(ts, n) ==
  CASE n.k = "lit" -> TRUE
    [] n.k = "list" -> \A j \in 1 .. Len(n.el) : OutOk(ts, n.el[j])
    [] n.k = "map" -> \A m \in DOMAIN n.el : OutOk(ts, n.el[m])
    [] OTHER -> /\ \A m \in DOMAIN ts[n.t].f : ~(ts[n.t].f[m].restricted /\ Has(n.doc, ts[n.t].f[m].key))
                /\ \A key \in DOMAIN n.ch : OutOk(ts, n.ch[key])
Out(ts, n) ==
  CASE n.k = "lit" -> n.v
    [] n.k = "list" -> Arr([j \in 1 .. Len(n.el) |-> Out(ts, n.el[j])])
    [] n.k = "map" -> Obj(TLCEval([m \in DOMAIN n.el |-> Out(ts, n.el[m])]))
    [] OTHER -> LET y == ts[n.t]
                    fs == {k \in {y.f[m].key : m \in DOMAIN y.f} : Given(n.doc, k)}
                    cs == {k \in {y.c[m].key : m \in DOMAIN y.c} \cap DOMAIN n.ch : ~Hollow(n.ch[k])}
                IN Obj(TLCEval([k \in fs \cup cs |-> IF k \in cs THEN Out(ts, n.ch[k]) ELSE n.doc[2][k]]))
Dumped(ts, n) == IF OutOk(ts, n) THEN Out(ts, n) ELSE <<"err">>

(* recorded defect F-DUMP-KEY: by name instead of by key, and without fields
   that were attached to the type (they are not part of what it declares)    *)
RECURSIVE AsIsOk(_, _)
AsIsOk(ts, n) ==
  CASE n.k = "lit" -> TRUE
    [] n.k = "list" -> \A j \in 1 .. Len(n.el) : AsIsOk(ts, n.el[j])
    [] n.k = "map" -> \A m \in DOMAIN n.el : AsIsOk(ts, n.el[m])
    [] OTHER -> /\ \A m \in {m \in DOMAIN ts[n.t].f : ~ts[n.t].f[m].attached /\ Has(n.doc, m)} : Read(ts, n, m) # <<"err">>
                /\ \A key \in DOMAIN n.ch : AsIsOk(ts, n.ch[key])
RECURSIVE AsIsOut(_, _)
AsIsOut(ts, n) ==
  CASE n.k = "lit" -> n.v
    [] n.k = "list" -> Arr([j \in 1 .. Len(n.el) |-> AsIsOut(ts, n.el[j])])
    [] n.k = "map" -> Obj(TLCEval([m \in DOMAIN n.el |-> AsIsOut(ts, n.el[m])]))
    [] OTHER -> LET y == ts[n.t]
                    fs == {m \in DOMAIN y.f : ~y.f[m].attached /\ Has(n.doc, m) /\ ~IsNull(Read(ts, n, m)[2])}
                    cs == {m \in DOMAIN y.c : y.c[m].key \in DOMAIN n.ch /\ ~Hollow(n.ch[y.c[m].key])}
                IN Obj(TLCEval([m \in fs \cup cs |-> IF m \in cs THEN AsIsOut(ts, n.ch[y.c[m].key]) ELSE Read(ts, n, m)[2]]))
DumpedAsIs(ts, n) == IF AsIsOk(ts, n) THEN AsIsOut(ts, n) ELSE <<"err">>

NamesOf(y) == DOMAIN y.f \cup DOMAIN y.c

(* groups of runtime values: g is name -> [key, required, dflt] *)
GroupRead(g, vals, name) ==
  IF name \notin DOMAIN g THEN <<"err">>
  ELSE IF g[name].key \in DOMAIN vals THEN <<"val", vals[g[name].key]>>
  ELSE IF g[name].required THEN <<"err">> ELSE <<"val", g[name].dflt>>
=============================================================================
