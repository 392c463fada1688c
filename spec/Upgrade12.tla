----------------------------- MODULE Upgrade12 -----------------------------
(* What a 1.2 resource listing with its resources means in 2.0.
   sep: separator between resource scope and model name.                   *)
EXTENDS Upgrade20

Scoped(scope, name, sep) == IF scope = "" THEN name ELSE IF name = "" THEN scope ELSE scope \o sep \o name
Prims12 == {"integer", "number", "string", "boolean", "array", "void"}
ScopeOf(d) == From(StrOf(d, "resourcePath"), 2)
ResUrl(root, path) == UrlJoin(UrlDirname(root), From(path, 2))
ResUrls(docs, root) == LET as == ListOf(docs[root], "apis") IN [i \in 1 .. Len(as) |-> ResUrl(root, StrOf(as[i], "path"))]
DefRef(scope, name, sep) == Ptr(<<"definitions", Scoped(scope, name, sep)>>)
Lower(m) == CASE m \in {"GET", "get"} -> "get" [] m \in {"PUT", "put"} -> "put" [] m \in {"POST", "post"} -> "post" [] m \in {"DELETE", "delete"} -> "delete"
              [] m \in {"HEAD", "head"} -> "head" [] m \in {"OPTIONS", "options"} -> "options" [] m \in {"PATCH", "patch"} -> "patch"
              [] m = "File" -> "file" [] OTHER -> m

(* limits are written as text or number *)
NumText(v) == v[2]
IntOf(t) == LET p == IF Contains(t, ".") THEN Upto(t, IndexOf(t, ".") - 1) ELSE t IN IF p = "-0" THEN "0" ELSE p
FloatOf(t) == IF Contains(t, ".") THEN t ELSE t \o ".0"
Limit(x, k) ==
  IF ~Given(x, k) \/ x[2][k] = S("") THEN NONE
  ELSE IF StrOf(x, "type") = "integer" THEN Num(IntOf(NumText(x[2][k]))) ELSE Num(FloatOf(NumText(x[2][k])))
(* limits are for numbers only *)
BadLimit(x) == /\ StrOf(x, "type") \notin {"integer", "number"}
               /\ \E k \in {"minimum", "maximum"} : Given(x, k) /\ x[2][k] # S("")
Limits(x) == Mk(<<<<"minimum", Limit(x, "minimum")>>, <<"maximum", Limit(x, "maximum")>>>>)

TypeUp(x, scope, sep) ==
  LET t == StrOf(x, "type")
      model == IF t # "" /\ t \notin Prims12 THEN t ELSE RefOf(x)
  IN Mk(<<<<"type", IF t \in Prims12 THEN S(t) ELSE NONE>>,
          <<"$ref", IF model = "" THEN NONE ELSE S(DefRef(scope, model, sep))>>>>)
SchemaUp12(x, scope, sep) ==
  Merge(Merge(TypeUp(x, scope, sep), Limits(x)),
    Mk(<<<<"format", Fld(x, "format")>>, <<"default", Fld(x, "defaultValue")>>, <<"uniqueItems", Fld(x, "uniqueItems")>>, <<"enum", Fld(x, "enum")>>,
         <<"items", IF Given(x, "items") THEN Put(TypeUp(x[2]["items"], scope, sep), "format", Fld(x[2]["items"], "format")) ELSE NONE>>>>))

ItemsUp12(x) == Mk(<<<<"type", S(StrOf(x, "type"))>>, <<"format", Fld(x, "format")>>>>)
BadItems(x) == IsRef(x) \/ StrOf(x, "type") \notin Prims12
Multi(p) == Given(p, "allowMultiple") /\ p[2]["allowMultiple"] = TRUE_ /\ ~Given(p, "items")
ParamUp12(p, scope, sep) ==
  LET in == IF StrOf(p, "paramType") = "form" THEN "formData" ELSE StrOf(p, "paramType")
      common == Mk(<<<<"name", Fld(p, "name")>>, <<"in", S(in)>>, <<"required", Fld(p, "required")>>, <<"description", Fld(p, "description")>>>>)
  IN IF in = "body" THEN Put(common, "schema", SchemaUp12(p, scope, sep))
     ELSE IF Multi(p)
     THEN Merge(common, Mk(<<<<"type", S("array")>>, <<"collectionFormat", S("csv")>>, <<"uniqueItems", Fld(p, "uniqueItems")>>,
            <<"items", Put(Merge(ItemsUp12(p), Limits(p)), "enum", Fld(p, "enum"))>>,
            <<"default", IF Given(p, "defaultValue") THEN Arr(<<p[2]["defaultValue"]>>) ELSE NONE>>>>))
     ELSE Merge(Merge(common, Limits(p)),
            Mk(<<<<"type", S(Lower(StrOf(p, "type")))>>, <<"format", Fld(p, "format")>>, <<"default", Fld(p, "defaultValue")>>, <<"enum", Fld(p, "enum")>>,
                 <<"collectionFormat", IF Given(p, "items") THEN S("csv") ELSE NONE>>,
                 <<"uniqueItems", IF Given(p, "items") THEN Fld(p, "uniqueItems") ELSE NONE>>,
                 <<"items", IF Given(p, "items") THEN ItemsUp12(p[2]["items"]) ELSE NONE>>>>))
(* models are for bodies only, anything may happen otherwise *)
OddParam12(p) == StrOf(p, "paramType") # "body" /\ Given(p, "type") /\ StrOf(p, "type") \notin Prims12 \cup {"File", "file"}
BadParam12(p) ==
  IF StrOf(p, "paramType") = "body" THEN BadLimit(p)
  ELSE \/ IsRef(p)
       \/ IF Multi(p) THEN BadItems(p) \/ BadLimit(p) ELSE BadLimit(p) \/ (Given(p, "items") /\ BadItems(p[2]["items"]))

Scopes12(q) == Arr([i \in 1 .. Len(q) |-> Fld(q[i], "scope")])
SecurityUp12(auth) ==
  IF auth = NONE \/ auth[2] = <<>> THEN NONE
  ELSE LET ks == Keys(auth)
           seq == CHOOSE q \in [1 .. Cardinality(ks) -> ks] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]
       IN Arr([i \in 1 .. Len(seq) |-> One(seq[i], Scopes12(auth[2][seq[i]][2]))])
OpUp12(o, d, sep) ==
  LET scope == ScopeOf(d)
      own(k) == IF Full(o, k) THEN o[2][k] ELSE IF Full(d, k) THEN d[2][k] ELSE NONE
      ps == ListOf(o, "parameters")
  IN Mk(<<<<"tags", IF scope = "" THEN NONE ELSE Arr(<<S(scope)>>)>>, <<"operationId", Fld(o, "nickname")>>, <<"summary", Fld(o, "summary")>>,
          <<"description", Fld(o, "notes")>>, <<"deprecated", Bool(StrOf(o, "deprecated") = "true")>>,
          <<"consumes", own("consumes")>>, <<"produces", own("produces")>>,
          <<"parameters", IF ps = <<>> THEN NONE ELSE Arr([i \in 1 .. Len(ps) |-> ParamUp12(ps[i], scope, sep)])>>,
          (* an empty one takes back those of the resource *)
          <<"security", SecurityUp12(IF Given(o, "authorizations") THEN o[2]["authorizations"] ELSE Fld(d, "authorizations"))>>,
          <<"responses", One("default", Mk(<<<<"description", S("")>>,
              <<"schema", IF StrOf(o, "type") = "void" THEN NONE ELSE SchemaUp12(o, scope, sep)>>>>))>>>>)
BadOp12(o) == BadLimit(o) \/ \E i \in 1 .. Len(ListOf(o, "parameters")) : BadParam12(ListOf(o, "parameters")[i])

(* all operations in order: [p |-> full path, m |-> method, o, d] *)
OpsOfApi(a, d) == LET os == ListOf(a, "operations") IN
  [i \in 1 .. Len(os) |-> [p |-> StrOf(d, "basePath") \o StrOf(a, "path"), m |-> Lower(StrOf(os[i], "method")), o |-> os[i], d |-> d]]
OpsOfDoc(d) == LET as == ListOf(d, "apis") IN Flatten([i \in 1 .. Len(as) |-> OpsOfApi(as[i], d)])
AllOps(rs) == Flatten([i \in 1 .. Len(rs) |-> OpsOfDoc(rs[i])])
HostRoot(p) == IF IsAbs(p) THEN Root(p) ELSE ""
HostOf(p) == IF IsAbs(p) THEN From(Root(p), SchemeEnd(p) + 3) ELSE ""

Models(d) == IF Given(d, "models") THEN Range([k \in Keys(d[2]["models"]) |-> [m |-> d[2]["models"][2][k], s |-> ScopeOf(d)]]) ELSE {}
NameOfModel(w, sep) == Scoped(w.s, StrOf(w.m, "id"), sep)
DefUp12(n, ws, sep) ==
  LET mine == {w \in ws : NameOfModel(w, sep) = n}
      w == CHOOSE x \in mine : TRUE
      x == w.m
      prop(y) == Put(SchemaUp12(y, w.s, sep), "description", Fld(y, "description"))
      supers == {v \in ws : \E i \in 1 .. Len(ListOf(v.m, "subTypes")) : Scoped(v.s, ListOf(v.m, "subTypes")[i][2], sep) = n}
      refs == {Ptr(<<"definitions", NameOfModel(v, sep)>>) : v \in supers}
      seq == CHOOSE q \in [1 .. Cardinality(refs) -> refs] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]
      up == IF refs = {} THEN NONE ELSE Arr([i \in 1 .. Len(seq) |-> One("$ref", S(seq[i]))])
  IN IF mine = {} THEN Mk(<<<<"allOf", up>>>>)
     ELSE Mk(<<<<"properties", IF Full(x, "properties") THEN MapV(x[2]["properties"], prop) ELSE NONE>>,
               <<"required", IF Full(x, "required") THEN x[2]["required"] ELSE NONE>>, <<"discriminator", Fld(x, "discriminator")>>,
               <<"description", Fld(x, "description")>>, <<"allOf", up>>>>)
DefNames(ws, sep) == {NameOfModel(w, sep) : w \in ws} \cup
  UNION {{Scoped(w.s, ListOf(w.m, "subTypes")[i][2], sep) : i \in 1 .. Len(ListOf(w.m, "subTypes"))} : w \in ws}

FldT(x, k) == IF Full(x, k) THEN x[2][k] ELSE NONE
InfoUp12(d) ==
  LET i == IF Given(d, "info") THEN d[2]["info"] ELSE EMPTYO
      lic == Mk(<<<<"name", FldT(i, "license")>>, <<"url", FldT(i, "licenseUrl")>>>>)
  IN Mk(<<<<"version", Fld(d, "apiVersion")>>, <<"title", FldT(i, "title")>>, <<"description", FldT(i, "description")>>,
          <<"termsOfService", FldT(i, "termsOfServiceUrl")>>,
          <<"contact", IF Full(i, "contact") THEN One("email", i[2]["contact"]) ELSE NONE>>,
          <<"license", NonEmpty(lic)>>>>)
Dig(x, q) == IF q = <<>> THEN x ELSE LET RECURSIVE f(_, _)
                                         f(y, r) == IF r = <<>> THEN y ELSE IF Given(y, r[1]) THEN f(y[2][r[1]], Tail(r)) ELSE NONE
                                     IN f(x, q)
AuthUp(x) ==
  LET t == StrOf(x, "type")
      a == Dig(x, <<"grantTypes", "implicit", "loginEndpoint", "url">>)
      k == Dig(x, <<"grantTypes", "authorization_code", "tokenEndpoint", "url">>)
      sc == ListOf(x, "scopes")
      scopes == Obj(TLCEval([s \in {StrOf(sc[i], "scope") : i \in 1 .. Len(sc)} |->
                   LET y == sc[CHOOSE i \in 1 .. Len(sc) : StrOf(sc[i], "scope") = s] IN IF Given(y, "description") THEN y[2]["description"] ELSE NULL]))
  IN Mk(<<<<"type", IF t = "basicAuth" THEN S("basic") ELSE Fld(x, "type")>>,
          <<"scopes", scopes>>,
          <<"authorizationUrl", IF t = "oauth2" THEN a ELSE NONE>>,
          <<"tokenUrl", IF t = "oauth2" THEN k ELSE NONE>>,
          <<"flow", IF t # "oauth2" THEN NONE ELSE IF a # NONE THEN S("implicit") ELSE IF k # NONE THEN S("access_code") ELSE NONE>>,
          <<"name", IF t = "apiKey" THEN Fld(x, "keyname") ELSE NONE>>,
          <<"in", IF t = "apiKey" THEN Fld(x, "passAs") ELSE NONE>>>>)

RECURSIVE UniqueTags(_, _)
UniqueTags(q, acc) == IF q = <<>> THEN acc ELSE UniqueTags(Tail(q), IF q[1] = "" \/ q[1] \in Range(acc) THEN acc ELSE Append(acc, q[1]))

ResDocs(docs, root) == LET us == ResUrls(docs, root) IN [i \in 1 .. Len(us) |-> docs[us[i]]]
Gone12(docs, root) == \E u \in Range(ResUrls(docs, root)) : u \notin DOMAIN docs
Up12(docs, root, sep) ==
  LET d == docs[root]
      rs == ResDocs(docs, root)
      ops == AllOps(rs)
      at == IF ops = <<>> THEN "" ELSE HostRoot(ops[1].p)
      short(p) == From(p, Len(at) + 1)
      ws == UNION {Models(rs[i]) : i \in 1 .. Len(rs)}
      tags == UniqueTags([i \in 1 .. Len(rs) |-> ScopeOf(rs[i])], <<>>)
      paths == {short(ops[i].p) : i \in 1 .. Len(ops)}
      item(p) ==
        LET mine == {i \in 1 .. Len(ops) : short(ops[i].p) = p}
        IN Obj(TLCEval([m \in {ops[i].m : i \in mine} |->
              LET j == CHOOSE i \in mine : ops[i].m = m /\ \A q \in mine : ops[q].m = m => q <= i IN OpUp12(ops[j].o, ops[j].d, sep)]))
  IN Mk(<<<<"swagger", S("2.0")>>, <<"schemes", Arr(<<S("http"), S("https")>>)>>,
          <<"host", S(IF ops = <<>> THEN "" ELSE HostOf(ops[1].p))>>, <<"basePath", S("")>>,
          <<"info", InfoUp12(d)>>,
          <<"tags", IF tags = <<>> THEN NONE ELSE Arr([i \in 1 .. Len(tags) |-> One("name", S(tags[i]))])>>,
          <<"paths", NonEmpty(Obj(TLCEval([p \in paths |-> item(p)])))>>,
          <<"definitions", NonEmpty(Obj(TLCEval([n \in DefNames(ws, sep) |-> DefUp12(n, ws, sep)])))>>,
          <<"securityDefinitions", IF Full(d, "authorizations") THEN MapV(d[2]["authorizations"], AuthUp) ELSE NONE>>>>)

RECURSIVE RefsOf12(_)
RefsOf12(x) == CASE IsObj(x) -> (IF Has(x, "$ref") /\ IsStr(x[2]["$ref"]) THEN {x[2]["$ref"][2]} ELSE {}) \cup UNION {RefsOf12(x[2][k]) : k \in Keys(x)}
                 [] IsArr(x) -> UNION {RefsOf12(x[2][i]) : i \in 1 .. Len(x[2])}
                 [] OTHER -> {}
Refused12(docs, root, sep) ==
  \/ Gone12(docs, root)
  \/ LET rs == ResDocs(docs, root)
         ops == AllOps(rs)
     IN \/ \E i, j \in 1 .. Len(ops) : HostRoot(ops[i].p) # HostRoot(ops[j].p)
        \/ \E i \in 1 .. Len(ops) : BadOp12(ops[i].o)
        \/ \E i \in 1 .. Len(rs) : \E w \in Models(rs[i]) : \E k \in Keys(w.m[2]["properties"]) : BadLimit(w.m[2]["properties"][2][k])
        \/ LET up == Up12(docs, root, sep) IN \E s \in RefsOf12(up) : At(up, Names(s)) = MISSING
(* different models with the same scoped name: one of them is lost *)
Clash12(docs, root, sep) ==
  LET rs == ResDocs(docs, root)
      ws == UNION {Models(rs[i]) : i \in 1 .. Len(rs)}
  IN \E a, b \in ws : a.m # b.m /\ NameOfModel(a, sep) = NameOfModel(b, sep)
Odd12(docs, root, sep) ==
  /\ ~Gone12(docs, root)
  /\ \/ Clash12(docs, root, sep)
     \/ LET ops == AllOps(ResDocs(docs, root)) IN \E i \in 1 .. Len(ops) : \E j \in 1 .. Len(ListOf(ops[i].o, "parameters")) : OddParam12(ListOf(ops[i].o, "parameters")[j])
===========================================================================
