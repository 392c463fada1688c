------------------------------ MODULE MC_Up20 ------------------------------
(* small 2.0 documents, all combinations of a menu; what each becomes *)
EXTENDS Upgrade20, Json
CONSTANTS Family, MaxOp, MaxShared
VARIABLES doc, bad, open, up

o(f) == Obj(f)
Par(n, in, more) == Merge(o([name |-> S(n), in |-> S(in)]), more)
T(t) == One("type", S(t))
RefTo(s) == One("$ref", S(s))
Strs_(q) == Arr([i \in 1 .. Len(q) |-> S(q[i])])
ArrT(f) == Merge(o([type |-> S("array"), items |-> T("integer")]), IF f = "" THEN EMPTYO ELSE One("collectionFormat", S(f)))
Menu == {Par("a", "query", ArrT("")), Par("h", "header", ArrT("csv")), Par("m", "query", ArrT("multi")),
         RefTo("#/parameters/L"), Par("b", "body", o([schema |-> o([type |-> S("object"), properties |-> One("n", RefTo("#/definitions/M"))]), required |-> TRUE_])),
         RefTo("#/parameters/B~1b"), Par("f", "formData", o([type |-> S("string"), required |-> TRUE_])), Par("g", "formData", o([type |-> S("array"), items |-> T("string"), allowEmptyValue |-> TRUE_])),
         Par("u", "formData", T("file")), RefTo("#/parameters/F"), Par("b", "body", One("schema", RefTo("#/definitions/File")))}
Base == o([swagger |-> S("2.0"),
           definitions |-> o([M |-> o([type |-> S("string"), maxLength |-> Num("3")]), File |-> T("file")]),
           parameters |-> Obj(TLCEval([k \in {"L", "B/b", "F"} |->
               CASE k = "L" -> Par("l", "query", o([type |-> S("integer"), minimum |-> Num("0")]))
                 [] k = "B/b" -> Par("b", "body", o([schema |-> RefTo("#/definitions/M"), description |-> S("")]))
                 [] k = "F" -> Par("ff", "formData", o([type |-> S("number"), required |-> TRUE_]))]))])
Lists(n) == UNION {[1 .. i -> Menu] : i \in 0 .. n}
Consumes == {NONE, Strs_(<<>>), Strs_(<<"application/json", "multipart/form-data">>), Strs_(<<"application/x-www-form-urlencoded">>)}
If(c, k) == IF c = NONE THEN EMPTYO ELSE One(k, c)
IfL(q, k) == IF q = <<>> THEN EMPTYO ELSE One(k, Arr(q))
Req(sh, op, c, gc) ==
  Merge(Base, Merge(If(gc, "consumes"),
     One("paths", One("/p", Merge(IfL(sh, "parameters"),
        o([post |-> Merge(IfL(op, "parameters"), If(c, "consumes")), put |-> One("summary", S("other"))]))))))

(* ---- responses ---- *)
Resps == {One("description", S("")), o([description |-> S("d"), schema |-> o([type |-> S("object")])]), o([description |-> S("d"), schema |-> T("string")]),
          o([description |-> S("d"), schema |-> T("file")]), o([description |-> S("d"), schema |-> RefTo("#/definitions/M")]),
          RefTo("#/responses/S"), RefTo("#/responses/N"), o([description |-> S("d"), headers |-> o([X |-> ArrT("csv"), Y |-> o([type |-> S("string"), description |-> S("y")])])])}
Produces == {NONE, Strs_(<<>>), Strs_(<<"application/xml">>), Strs_(<<"text/plain", "image/png">>)}
RespDoc(r1, r2, p, gp) ==
  Merge(Base, Merge(If(gp, "produces"),
     o([responses |-> o([S |-> o([description |-> S("s"), schema |-> o([type |-> S("array"), items |-> RefTo("#/definitions/M")])]), N |-> One("description", S("n"))]),
        paths |-> One("/p", One("get", Merge(One("responses", Obj(TLCEval([c \in {"200", "default"} |-> IF c = "200" THEN r1 ELSE r2]))), If(p, "produces"))))])))

(* ---- security ---- *)
Schemes == {T("basic"), o([type |-> S("apiKey"), name |-> S("k"), in |-> S("header")]), o([type |-> S("oauth2"), flow |-> S("implicit"), authorizationUrl |-> S("http://a")]),
            o([type |-> S("oauth2"), flow |-> S("application"), tokenUrl |-> S("http://t"), scopes |-> One("r", S("read"))]),
            o([type |-> S("oauth2"), flow |-> S("accessCode"), tokenUrl |-> S("http://t"), authorizationUrl |-> S("http://a"), scopes |-> EMPTYO]),
            o([type |-> S("oauth2"), flow |-> S("password"), tokenUrl |-> S("http://t"), description |-> S("")]), T("oauth2")}
Needs == {NONE, Arr(<<>>), Arr(<<EMPTYO>>), Arr(<<One("s", Arr(<<>>))>>), Arr(<<One("s", Strs_(<<"r", "w">>)), One("t", Arr(<<>>))>>)}
SecDoc(s, t, n, gn) ==
  Merge(Base, Merge(If(gn, "security"), o([securityDefinitions |-> o([s |-> s, t |-> t]), paths |-> One("/p", One("get", Merge(If(n, "security"), One("summary", S("x")))))])))

(* ---- servers ---- *)
Hosts == {NONE, S("h"), S("h:80")}
Bases == {NONE, S(""), S("/"), S("/v1"), S("v1/x")}
SchemeLists == {NONE, Strs_(<<>>), Strs_(<<"http">>), Strs_(<<"wss", "https">>)}
SrvDoc(h, b, sl, os) ==
  Merge(Base, Merge(If(h, "host"), Merge(If(b, "basePath"), Merge(If(sl, "schemes"), One("paths", One("/p", One("get", Merge(If(os, "schemes"), One("summary", S("x"))))))))))

Pick == CASE Family = "req" -> \E sh \in Lists(MaxShared), op \in Lists(MaxOp), c \in Consumes, gc \in Consumes \ {Strs_(<<>>)} : doc = Req(sh, op, c, gc)
          [] Family = "resp" -> \E r1, r2 \in Resps, p, gp \in Produces : doc = RespDoc(r1, r2, p, gp)
          [] Family = "sec" -> \E s, t \in Schemes, n, gn \in Needs : doc = SecDoc(s, t, n, gn)
          [] Family = "srv" -> \E h \in Hosts, b \in Bases, sl, os \in SchemeLists : doc = SrvDoc(h, b, sl, os)
U == "http://h/v1/swagger.json"
Docs == [x \in {U} |-> doc]
item == doc[2]["paths"][2]["/p"]
item3 == up[2]["paths"][2]["/p"]
done == up # <<"todo">>
Init == Pick /\ bad = TRUE /\ open = TRUE /\ up = <<"todo">>
Next == /\ ~done
        /\ bad' = Refused(Docs, U)
        /\ open' = Mixed(Docs, U)
        /\ up' = IF bad' THEN <<"refused">> ELSE TLCEval(Up20(Docs, U))
        /\ UNCHANGED doc

(* every parameter is found in exactly one place *)
Ops == {"post", "put"}
own(m) == ListOf(item[2][m], "parameters")
all(m) == ListOf(item, "parameters") \o own(m)
body(m) == BodyOnes(Docs, U, all(m))
content(m) == item3[2][m][2]["requestBody"][2]["content"]
Placed == Family = "req" /\ ~bad /\ ~open =>
  /\ Len(ListOf(item3, "parameters")) + Len(BodyOnes(Docs, U, ListOf(item, "parameters"))) = Len(ListOf(item, "parameters"))
  /\ \A m \in Ops :
       /\ Len(ListOf(item3[2][m], "parameters")) = Len(PlainOnes(Docs, U, own(m)))
       /\ Has(item3[2][m], "requestBody") <=> body(m) # <<>>
       /\ body(m) # <<>> => /\ Keys(content(m)) # {}
                            /\ \A i \in 1 .. Len(body(m)) : Kind(Docs, U, body(m)[i]) # "body" =>
                                 \E t \in Keys(content(m)) : NameOf(Docs, U, body(m)[i]) \in Keys(content(m)[2][t][2]["schema"][2]["properties"])
                            /\ Has(item3[2][m][2]["requestBody"], "required") <=> \E i \in 1 .. Len(body(m)) : IsReq(Docs, U, body(m)[i])
(* an operation without own parameters does not notice its neighbours *)
Apart == Family = "req" /\ ~bad =>
  LET cs == Strings(doc, "consumes") IN
  item3[2]["put"] = OpUp(Docs, U, One("summary", S("other")), U, BodyOnes(Docs, U, ListOf(item, "parameters")), ServerUrl(doc), cs, {})
(* references stay valid *)
RECURSIVE RefsIn(_)
RefsIn(x) == CASE IsObj(x) -> (IF Has(x, "$ref") /\ IsStr(x[2]["$ref"]) THEN {x[2]["$ref"][2]} ELSE {}) \cup UNION {RefsIn(x[2][k]) : k \in Keys(x)}
               [] IsArr(x) -> UNION {RefsIn(x[2][i]) : i \in 1 .. Len(x[2])}
               [] OTHER -> {}
Links == ~bad => \A s \in RefsIn(up) : At(up, Names(s)) # MISSING
Needed == Family = "sec" /\ ~bad => Fld(item3[2]["get"], "security") = Fld(item[2]["get"], "security")
Emit == ~done \/ open \/ PrintT("@U " \o ToJson([doc |-> doc, up |-> up]))
===========================================================================
