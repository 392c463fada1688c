----------------------------- MODULE Upgrade20 -----------------------------
(* What a 2.0 document means in 3.0.0.

   docs: address -> document, root: address of the document being upgraded.
   The result shows only what is present: collections directly held by an
   object are shown when they are not empty, except 'security' and 'scopes'. *)
EXTENDS Values, Pointer, Url

(* object from pairs <<name, value>>, NONE is left out *)
Mk(ps) == LET ks == {i \in 1 .. Len(ps) : ps[i][2] # NONE}
          IN Obj(TLCEval([k \in {ps[i][1] : i \in ks} |-> (ps[CHOOSE i \in ks : ps[i][1] = k])[2]]))
Fld(x, k) == IF Given(x, k) THEN x[2][k] ELSE NONE
Flds(x, ks) == Obj(TLCEval([k \in {q \in ks : Given(x, q)} |-> x[2][k]]))
(* children of an object that are there *)
Full(x, k) == Given(x, k) /\ Truthy(x[2][k])
NonEmpty(v) == IF v[2] = <<>> THEN NONE ELSE v
MapV(x, f(_)) == Obj(TLCEval([k \in Keys(x) |-> f(x[2][k])]))
MapA(x, f(_)) == Arr([i \in 1 .. Len(x[2]) |-> f(x[2][i])])
(* children of objects: null entries are not there *)
NN(x) == Obj(TLCEval([k \in {q \in Keys(x) : ~IsNull(x[2][q])} |-> x[2][k]]))
RefOf(x) == IF Given(x, "$ref") /\ Truthy(x[2]["$ref"]) THEN x[2]["$ref"][2] ELSE ""
IsRef(x) == RefOf(x) # ""
StrOf(x, k) == IF Given(x, k) /\ IsStr(x[2][k]) THEN x[2][k][2] ELSE ""

BaseFields == {"type", "format", "default", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum", "maxLength",
               "minLength", "pattern", "maxItems", "minItems", "uniqueItems", "enum", "multipleOf"}
SchemaFields == BaseFields \cup {"title", "maxProperties", "minProperties", "description", "readOnly", "example"}

(* ------------------------------------------------ where things move ---- *)
(* kind of a parameter: which part of a request it describes *)
RECURSIVE Goal(_, _, _, _)
(* object at the end of a chain of references, with the document it is in *)
Goal(docs, u, x, fuel) ==
  IF ~IsRef(x) \/ fuel = 0 THEN [u |-> u, x |-> x]
  ELSE LET a == Resolve(RefOf(x), u)
           t == IF DocPart(a) \in DOMAIN docs THEN At(docs[DocPart(a)], Names("#" \o Fragment(a))) ELSE MISSING
       IN IF t = MISSING THEN [u |-> u, x |-> x] ELSE Goal(docs, DocPart(a), t, fuel - 1)
Kind(docs, u, p) ==
  LET g == Goal(docs, u, p, 9)
      s == IF Given(g.x, "schema") THEN Goal(docs, g.u, g.x[2]["schema"], 9).x ELSE EMPTYO
  IN CASE StrOf(g.x, "type") = "file" -> "file"
       [] StrOf(g.x, "in") = "formData" -> "form"
       [] StrOf(g.x, "in") = "body" -> IF StrOf(s, "type") = "file" THEN "file" ELSE "body"
       [] OTHER -> "plain"
InBody(docs, u, p) == Kind(docs, u, p) # "plain"

(* place of a part of a 2.0 document in 3.0.0 *)
Moved(docs, u, n) ==
  LET d == docs[u]
      rest == DropSeq(n, 2)
  IN IF n = <<>> THEN n
     ELSE CASE n[1] = "definitions" /\ Full(d, "definitions") -> <<"components", "schemas">> \o DropSeq(n, 1)
       [] n[1] = "responses" /\ Full(d, "responses") -> <<"components", "responses">> \o DropSeq(n, 1)
       [] n[1] = "securityDefinitions" /\ Full(d, "securityDefinitions") -> <<"components", "securitySchemes">> \o DropSeq(n, 1)
       [] n[1] = "parameters" /\ Full(d, "parameters") ->
            IF Len(n) > 1 /\ n[2] \in Keys(d[2]["parameters"]) /\ InBody(docs, u, d[2]["parameters"][2][n[2]])
            THEN <<"components", "requestBodies">> \o DropSeq(n, 1)
            ELSE <<"components", "parameters">> \o DropSeq(n, 1)
       [] n[1] = "paths" /\ Len(n) > 3 /\ n[3] = "parameters" /\ IsIndex(n[4]) /\ At(d, SubSeq(n, 1, 4)) # MISSING ->
            LET ps == At(d, SubSeq(n, 1, 3))[2]
                i == ToNat(n[4])
                before == {j \in 1 .. i : ~InBody(docs, u, ps[j])}
            IN IF InBody(docs, u, ps[i + 1])
               THEN SubSeq(n, 1, 2) \o <<"x-pyopenapi_internal_request_body">> \o DropSeq(n, 4)
               ELSE SubSeq(n, 1, 3) \o <<NatStr(Cardinality(before))>> \o DropSeq(n, 4)
       [] OTHER -> n

(* the reference written r in document u, as found in the upgraded document.
   Only the upgraded document moves; others keep their places.             *)
NewRef(docs, root, r, u) ==
  LET a == Resolve(r, u)
      d == DocPart(a)
      n == Names("#" \o Fragment(a))
      q == Ptr(IF d = root THEN Moved(docs, root, n) ELSE n)
  IN IF StartsWith(r, "#") /\ u = root THEN q ELSE d \o q
Ref(docs, root, r, u) == One("$ref", S(NewRef(docs, root, r, u)))

(* ------------------------------------------------------------ parts ---- *)
XDocs(x) == Mk(<<<<"url", Fld(x, "url")>>, <<"description", Fld(x, "description")>>>>)
XDocsOf(x) == IF Given(x, "externalDocs") THEN XDocs(x[2]["externalDocs"]) ELSE NONE

RECURSIVE SchemaUp(_, _, _, _)
SchemaUp(docs, root, x, u) ==
  LET sub(y) == SchemaUp(docs, root, y, u) IN
  IF IsRef(x) THEN Ref(docs, root, RefOf(x), u)
  ELSE IF StrOf(x, "type") = "file" THEN Mk(<<<<"type", S("string")>>, <<"format", S("binary")>>>>)
  ELSE LET ap == IF Given(x, "additionalProperties") THEN x[2]["additionalProperties"] ELSE NONE IN
       Merge(Flds(x, SchemaFields),
         Mk(<<<<"required", IF Given(x, "required") /\ IsArr(x[2]["required"]) THEN NonEmpty(x[2]["required"]) ELSE NONE>>,
              <<"allOf", IF Full(x, "allOf") THEN MapA(x[2]["allOf"], sub) ELSE NONE>>,
              <<"items", IF Given(x, "items") THEN sub(x[2]["items"]) ELSE NONE>>,
              <<"properties", IF Full(x, "properties") THEN MapV(x[2]["properties"], sub) ELSE NONE>>,
              (* true is what an absent one means *)
              <<"additionalProperties", IF ap = NONE THEN NONE ELSE IF IsBool(ap) THEN (IF ap = TRUE_ THEN NONE ELSE ap) ELSE sub(ap)>>,
              <<"discriminator", IF Full(x, "discriminator") THEN One("propertyName", x[2]["discriminator"]) ELSE NONE>>,
              <<"xml", IF Given(x, "xml") THEN Flds(x[2]["xml"], {"name", "namespace", "prefix", "attribute", "wrapped"}) ELSE NONE>>,
              <<"externalDocs", XDocsOf(x)>>>>))

RECURSIVE ItemsUp(_)
ItemsUp(x) == Merge(Flds(x, BaseFields), Mk(<<<<"items", IF Given(x, "items") THEN ItemsUp(x[2]["items"]) ELSE NONE>>>>))

(* serialisation: style and explode, as far as they differ from what an
   absent one means (form and true in query, simple and false elsewhere)    *)
StyleOf(x) ==
  LET in == StrOf(x, "in")
      f == IF Given(x, "collectionFormat") THEN StrOf(x, "collectionFormat") ELSE "csv"
  IN IF StrOf(x, "type") # "array" THEN [style |-> NONE, explode |-> NONE]
     ELSE CASE f = "csv" -> [style |-> NONE, explode |-> IF in = "query" THEN FALSE_ ELSE NONE]
            [] f = "ssv" -> [style |-> S("spaceDelimited"), explode |-> NONE]
            [] f = "pipes" -> [style |-> S("pipeDelimited"), explode |-> NONE]
            [] OTHER -> [style |-> NONE, explode |-> NONE]
(* not expressible in 3.0.0 *)
BadStyle(x, in) ==
  LET f == StrOf(x, "collectionFormat") IN
  f \in {"ssv", "pipes"} /\ (in # "query" \/ StrOf(x, "type") # "array")

ParamSchema(x) ==
  LET s == Merge(Flds(x, BaseFields), Mk(<<<<"items", IF Given(x, "items") THEN ItemsUp(x[2]["items"]) ELSE NONE>>>>))
  IN IF s[2] = <<>> THEN NONE ELSE s
ParamUp(x) ==
  LET st == StyleOf(x) IN
  Merge(Flds(x, {"name", "in", "description", "required", "allowEmptyValue"}),
        Mk(<<<<"schema", ParamSchema(x)>>, <<"style", st.style>>, <<"explode", st.explode>>>>))

HeaderUp(x) ==
  Merge(Flds(x, {"description"}),
        Mk(<<<<"schema", LET s == ParamSchema(x) IN IF s = NONE THEN EMPTYO ELSE s>>>>))

(* ----------------------------------------------------- request body ---- *)
FileTypes == {"multipart/form-data", "application/x-www-form-urlencoded", "application/octet-stream", "application/pdf",
   "image/*", "image/gif", "image/png", "image/jpeg", "image/bmp", "image/webp", "audio/*", "audio/midi", "audio/mpeg",
   "audio/webm", "audio/ogg", "audio/wav", "video/*", "video/webm", "video/ogg"}
FormTypes == {"application/x-www-form-urlencoded", "multipart/form-data"}
DefaultType(k) == CASE k = "file" -> "multipart/form-data"
                    [] k = "form" -> "application/x-www-form-urlencoded"
                    [] OTHER -> "application/json"
MimeTypes(k, consumes) ==
  LET ok == CASE k = "file" -> consumes \cap FileTypes [] k = "form" -> consumes \cap FormTypes [] OTHER -> consumes
  IN IF ok = {} THEN {DefaultType(k)} ELSE ok

RECURSIVE PartType(_)
PartType(x) == CASE StrOf(x, "type") = "file" -> "application/octet-stream"
                 [] StrOf(x, "type") = "object" -> "application/json"
                 [] StrOf(x, "type") = "array" /\ Given(x, "items") -> PartType(x[2]["items"])
                 [] OTHER -> "text/plain"

RECURSIVE FormItems(_, _, _, _)
(* one form field as a schema *)
FieldUp(docs, root, p, u) ==
  LET g == Goal(docs, u, p, 9)
      src == IF Given(g.x, "schema") THEN g.x[2]["schema"] ELSE g.x
      (* one of this document is kept as reference *)
      here == IsRef(p) /\ StartsWith(RefOf(p), "#")
      s == IF here THEN Ref(docs, root, RefOf(p), u) ELSE FormItems(docs, root, src, g.u)
  IN IF ~here /\ Given(g.x, "allowEmptyValue") /\ g.x[2]["allowEmptyValue"] = TRUE_ THEN Put(s, "nullable", TRUE_) ELSE s
FormItems(docs, root, x, u) ==
  IF IsRef(x) THEN Ref(docs, root, RefOf(x), u)
  ELSE IF StrOf(x, "type") = "file" THEN Mk(<<<<"type", S("string")>>, <<"format", S("binary")>>>>)
  ELSE Merge(Flds(x, SchemaFields), Mk(<<<<"items", IF Given(x, "items") THEN ItemsUp(x[2]["items"]) ELSE NONE>>>>))

NameOf(docs, u, p) == StrOf(Goal(docs, u, p, 9).x, "name")
IsReq(docs, u, p) == LET x == Goal(docs, u, p, 9).x IN Given(x, "required") /\ Truthy(x[2]["required"])

(* sequence of body, form and file parameters q of document u *)
BodyUp(docs, root, q, u, consumes) ==
  IF q = <<>> THEN NONE
  ELSE LET kinds == [i \in 1 .. Len(q) |-> Kind(docs, u, q[i])]
           bodies == {i \in 1 .. Len(q) : kinds[i] = "body"}
           types(i) == MimeTypes(kinds[i], consumes)
           all == UNION {types(i) : i \in 1 .. Len(q)}
           parts(t) == {i \in 1 .. Len(q) : t \in types(i) /\ i \notin bodies}
           body == q[CHOOSE i \in bodies : TRUE]
           bg == Goal(docs, u, body, 9)
           bs == IF Given(bg.x, "schema") THEN bg.x[2]["schema"] ELSE EMPTYO
           schema(t) ==
             IF bodies # {} THEN SchemaUp(docs, root, bs, bg.u)
             ELSE LET is == parts(t)
                      req == KeepIdx([i \in 1 .. Len(q) |-> S(NameOf(docs, u, q[i]))], {i \in is : IsReq(docs, u, q[i])})
                  IN Mk(<<<<"properties", Obj(TLCEval([n \in {NameOf(docs, u, q[i]) : i \in is} |->
                              FieldUp(docs, root, q[CHOOSE i \in is : NameOf(docs, u, q[i]) = n], u)]))>>,
                          <<"required", IF req = <<>> THEN NONE ELSE Arr(req)>>>>)
           enc(t) ==
             IF bodies # {} \/ t \notin FormTypes THEN NONE
             ELSE LET is == parts(t) IN
                  Obj(TLCEval([n \in {NameOf(docs, u, q[i]) : i \in is} |->
                     LET g == Goal(docs, u, q[CHOOSE i \in is : NameOf(docs, u, q[i]) = n], 9).x
                         src == IF Given(g, "schema") THEN g[2]["schema"] ELSE g
                     IN One("contentType", S(PartType(src)))]))
       IN Mk(<<<<"required", IF \E i \in 1 .. Len(q) : IsReq(docs, u, q[i]) THEN TRUE_ ELSE NONE>>,
               <<"description", IF bodies # {} THEN Fld(bg.x, "description") ELSE NONE>>,
               <<"content", Obj(TLCEval([t \in all |-> Mk(<<<<"schema", schema(t)>>, <<"encoding", enc(t)>>>>)]))>>>>)
(* two bodies, a body next to form fields, or two fields of one name *)
Clash(docs, q, u, consumes) ==
  \E i, j \in 1 .. Len(q) :
    /\ i < j
    /\ \/ Kind(docs, u, q[j]) = "body"
       \/ /\ Kind(docs, u, q[i]) # "body" /\ Kind(docs, u, q[j]) # "body"
          /\ NameOf(docs, u, q[i]) = NameOf(docs, u, q[j])
          /\ MimeTypes(Kind(docs, u, q[i]), consumes) \cap MimeTypes(Kind(docs, u, q[j]), consumes) # {}
(* a form field that does not fit into form data *)
BadField(docs, q, u, consumes) ==
  \E i \in 1 .. Len(q) : LET g == Goal(docs, u, q[i], 9).x IN
     /\ Kind(docs, u, q[i]) # "body" /\ ~Given(g, "schema") /\ BadStyle(g, "formData")
     /\ MimeTypes(Kind(docs, u, q[i]), consumes) \cap FormTypes # {}

(* --------------------------------------------------------- the rest ---- *)
Strings(x, k) == IF Given(x, k) THEN {x[2][k][2][i][2] : i \in 1 .. Len(x[2][k][2])} ELSE {}
Own(x, k, dflt) == IF Full(x, k) THEN Strings(x, k) ELSE dflt

ResponseUp(docs, root, r, u, produces) ==
  LET g == Goal(docs, u, r, 9)
      has == Given(g.x, "schema")
      sch == g.x[2]["schema"]
      ts == IF StrOf(sch, "type") = "file" THEN {"application/octet-stream"}
            ELSE IF produces # {} THEN produces
            ELSE {IF StrOf(sch, "type") = "object" THEN "application/json" ELSE "text/plain"}
  IN IF IsRef(r) /\ ~has THEN Ref(docs, root, RefOf(r), u)
     ELSE Merge(Flds(g.x, {"description"}),
            Mk(<<<<"content", IF has THEN Obj(TLCEval([t \in ts |-> One("schema", SchemaUp(docs, root, sch, g.u))])) ELSE NONE>>,
                 <<"headers", IF Full(g.x, "headers") THEN MapV(g.x[2]["headers"], HeaderUp) ELSE NONE>>>>))
BadResponse(docs, u, r) ==
  LET g == Goal(docs, u, r, 9) IN
  /\ Full(g.x, "headers") /\ \E k \in Keys(g.x[2]["headers"]) : BadStyle(g.x[2]["headers"][2][k], "header")

FlowName(f) == CASE f = "application" -> "clientCredentials" [] f \in {"accessCode", "access_code"} -> "authorizationCode" [] OTHER -> f
SecurityUp(x) ==
  LET t == StrOf(x, "type")
      flow == Merge(Flds(x, {"authorizationUrl", "tokenUrl"}), One("scopes", IF Given(x, "scopes") THEN x[2]["scopes"] ELSE EMPTYO))
  IN Merge(Flds(x, {"description", "name", "in"}),
       Mk(<<<<"type", IF t = "basic" THEN S("http") ELSE Fld(x, "type")>>,
            <<"scheme", IF t = "basic" THEN S("basic") ELSE NONE>>,
            <<"flows", IF t = "oauth2" THEN One(FlowName(StrOf(x, "flow")), flow) ELSE NONE>>>>))

(* parameters of a list that are part of the body / are not *)
BodyOnes(docs, u, q) == KeepIdx(q, {i \in 1 .. Len(q) : InBody(docs, u, q[i])})
PlainOnes(docs, u, q) == KeepIdx(q, {i \in 1 .. Len(q) : ~InBody(docs, u, q[i])})
ListOf(x, k) == IF Given(x, k) THEN x[2][k][2] ELSE <<>>
ParamsUp(docs, root, q, u) ==
  LET p == PlainOnes(docs, u, q) IN
  IF p = <<>> THEN NONE ELSE Arr([i \in 1 .. Len(p) |-> IF IsRef(p[i]) THEN Ref(docs, root, RefOf(p[i]), u) ELSE ParamUp(p[i])])

WithScheme(url, s) == IF IsAbs(url) THEN s \o From(url, IndexOf(url, "://")) ELSE ""
HasHost(url) == IsAbs(url) /\ Len(Root(url)) > IndexOf(url, "://") + 2

(* shared: body parameters of the path item.  sv: address of the server *)
OpUp(docs, root, op, u, shared, sv, consumes, produces) ==
  LET ps == ListOf(op, "parameters")
      cs == Own(op, "consumes", consumes)
      pr == Own(op, "produces", produces)
      resp(r) == ResponseUp(docs, root, r, u, pr)
  IN Merge(Flds(op, {"summary", "description", "operationId", "deprecated"}),
       Mk(<<<<"tags", IF Full(op, "tags") THEN op[2]["tags"] ELSE NONE>>,
            <<"security", Fld(op, "security")>>,
            <<"parameters", ParamsUp(docs, root, ps, u)>>,
            <<"requestBody", BodyUp(docs, root, shared \o BodyOnes(docs, u, ps), u, cs)>>,
            <<"responses", IF Full(op, "responses") THEN MapV(op[2]["responses"], resp) ELSE NONE>>,
            <<"externalDocs", XDocsOf(op)>>,
            <<"servers", IF Full(op, "schemes") /\ HasHost(sv)
                         THEN Arr([i \in 1 .. Len(ListOf(op, "schemes")) |->
                                     One("url", S(WithScheme(sv, ListOf(op, "schemes")[i][2])))]) ELSE NONE>>>>))

Methods == {"get", "put", "post", "delete", "options", "head", "patch"}
PathUp(docs, root, x, u, sv, consumes, produces) ==
  LET ps == ListOf(x, "parameters")
      shared == BodyOnes(docs, u, ps)
  IN Merge(Mk(<<<<"$ref", IF IsRef(x) THEN S(NewRef(docs, root, RefOf(x), u)) ELSE NONE>>,
                <<"parameters", ParamsUp(docs, root, ps, u)>>>>),
           Obj(TLCEval([m \in {q \in Methods : Given(x, q)} |-> OpUp(docs, root, x[2][m], u, shared, sv, consumes, produces)])))
(* a path item written as reference always names the document *)
PathUpAbs(docs, root, x, u, sv, consumes, produces) ==
  LET p == PathUp(docs, root, x, u, sv, consumes, produces) IN
  IF IsRef(x) /\ StartsWith(RefOf(x), "#") THEN Put(p, "$ref", S(u \o NewRef(docs, root, RefOf(x), u))) ELSE p

ServerUrl(d) ==
  IF Full(d, "host")
  THEN (IF Full(d, "schemes") THEN ListOf(d, "schemes")[1][2] ELSE "https") \o "://" \o StrOf(d, "host")
       \o (LET b == StrOf(d, "basePath") IN IF b = "" \/ StartsWith(b, "/") THEN b ELSE "/" \o b)
  ELSE IF Full(d, "basePath") THEN StrOf(d, "basePath") ELSE "/"

InfoUp(x) ==
  Merge(Flds(x, {"title", "version", "description", "termsOfService"}),
        Mk(<<<<"contact", IF Given(x, "contact") THEN Flds(x[2]["contact"], {"name", "url", "email"}) ELSE NONE>>,
             <<"license", IF Given(x, "license") THEN Flds(x[2]["license"], {"name", "url"}) ELSE NONE>>>>))
TagUp(x) == Merge(Flds(x, {"name", "description"}), Mk(<<<<"externalDocs", XDocsOf(x)>>>>))

Up20(docs, root) ==
  LET d == docs[root]
      sv == ServerUrl(d)
      cs == Strings(d, "consumes")
      pr == Strings(d, "produces")
      path(x) == PathUpAbs(docs, root, x, root, sv, cs, pr)
      schema(x) == SchemaUp(docs, root, x, root)
      resp(x) == ResponseUp(docs, root, x, root, pr)
      plain == IF Full(d, "parameters") THEN {k \in Keys(d[2]["parameters"]) : ~InBody(docs, root, d[2]["parameters"][2][k])} ELSE {}
      bodies == IF Full(d, "parameters") THEN Keys(d[2]["parameters"]) \ plain ELSE {}
      comps == Mk(<<
         <<"schemas", IF Full(d, "definitions") THEN MapV(d[2]["definitions"], schema) ELSE NONE>>,
         <<"parameters", IF plain # {} THEN Obj(TLCEval([k \in plain |-> ParamUp(d[2]["parameters"][2][k])])) ELSE NONE>>,
         <<"requestBodies", IF bodies # {} THEN Obj(TLCEval([k \in bodies |->
                                BodyUp(docs, root, <<d[2]["parameters"][2][k]>>, root, {})])) ELSE NONE>>,
         <<"responses", IF Full(d, "responses") THEN MapV(d[2]["responses"], resp) ELSE NONE>>,
         <<"securitySchemes", IF Full(d, "securityDefinitions") THEN MapV(d[2]["securityDefinitions"], SecurityUp) ELSE NONE>>>>)
  IN Mk(<<<<"openapi", S("3.0.0")>>,
          <<"info", IF Given(d, "info") THEN InfoUp(d[2]["info"]) ELSE NONE>>,
          <<"servers", Arr(<<One("url", S(sv))>>)>>,
          <<"paths", IF Full(d, "paths") THEN MapV(d[2]["paths"], path) ELSE NONE>>,
          <<"security", IF Full(d, "security") THEN d[2]["security"] ELSE NONE>>,
          <<"tags", IF Full(d, "tags") THEN MapA(d[2]["tags"], TagUp) ELSE NONE>>,
          <<"externalDocs", XDocsOf(d)>>,
          <<"components", IF comps[2] = <<>> THEN NONE ELSE comps>>>>)

(* documents that cannot be expressed *)
BadParams(docs, u, q, consumes) ==
  LET b == BodyOnes(docs, u, q)
      p == PlainOnes(docs, u, q)
  IN \/ Clash(docs, b, u, consumes)
     \/ BadField(docs, b, u, consumes)
     \/ \E i \in 1 .. Len(p) : LET g == Goal(docs, u, p[i], 9).x IN BadStyle(g, StrOf(g, "in"))
BadPath(docs, u, x, consumes) ==
  LET ps == ListOf(x, "parameters") IN
  \/ BadParams(docs, u, ps, consumes)
  \/ \E m \in Methods : Given(x, m) /\
       LET op == x[2][m] IN
       \/ BadParams(docs, u, BodyOnes(docs, u, ps) \o ListOf(op, "parameters"), Own(op, "consumes", consumes))
       \/ Full(op, "responses") /\ \E k \in Keys(op[2]["responses"]) : BadResponse(docs, u, op[2]["responses"][2][k])
(* not a 2.0 document: form fields after a body; what becomes of it is open *)
MixedIn(docs, u, q) == \E i, j \in 1 .. Len(q) : i < j /\ Kind(docs, u, q[i]) = "body" /\ Kind(docs, u, q[j]) \in {"form", "file"}
Mixed(docs, root) ==
  LET d == docs[root] IN
  Full(d, "paths") /\ \E k \in Keys(d[2]["paths"]) :
    LET x == d[2]["paths"][2][k]
        ps == ListOf(x, "parameters")
    IN \/ MixedIn(docs, root, ps)
       \/ \E m \in Methods : Given(x, m) /\ MixedIn(docs, root, ps \o ListOf(x[2][m], "parameters"))
Refused(docs, root) ==
  LET d == docs[root] IN
  \/ Full(d, "paths") /\ \E k \in Keys(d[2]["paths"]) : StartsWith(k, "x-") \/ BadPath(docs, root, d[2]["paths"][2][k], Strings(d, "consumes"))
  \/ Full(d, "parameters") /\ \E k \in Keys(d[2]["parameters"]) : BadParams(docs, root, <<d[2]["parameters"][2][k]>>, {})
  \/ Full(d, "responses") /\ \E k \in Keys(d[2]["responses"]) : BadResponse(docs, root, d[2]["responses"][2][k])
  \/ Full(d, "securityDefinitions") /\ \E k \in Keys(d[2]["securityDefinitions"]) :
       LET s == d[2]["securityDefinitions"][2][k] IN StrOf(s, "type") = "oauth2" /\ ~Full(s, "flow")
===========================================================================
