------------------------------ MODULE MC_Links ------------------------------
(* All small worlds of references: three path items (or three schemas), two
   in the main document and one in another, each with or without a reference
   to any of the three.  What each finally is, and where each chain ends.    *)
EXTENDS Links, Json, TLC
CONSTANTS Family, Ver, Rich
VARIABLES pick, done, fin, ends

Main == IF Ver = "2.0" THEN "http://h/v1/swagger.json" ELSE "http://h/v1/openapi.json"
Other == "http://h/v1/e.json"
Slots == {"A", "B", "X"}
PlaceOf(s) == IF s = "X" THEN <<Other, <<"x">>>>
              ELSE <<Main, IF Family = "paths" THEN <<"paths", IF s = "A" THEN "/a" ELSE "/b">>
                           ELSE IF Ver = "2.0" THEN <<"definitions", s>> ELSE <<"components", "schemas", s>>>>
(* how a reference to slot t is written in the document of slot s *)
Text_(s, t) == (IF PlaceOf(s)[1] = PlaceOf(t)[1] THEN "" ELSE IF t = "X" THEN "e.json" ELSE Main) \o Ptr(PlaceOf(t)[2])
o(f) == Obj(f)
PathChoices == [ref : Slots \cup {"-"}, ms : IF Rich THEN SUBSET {"get", "put"} ELSE {{}, {"get"}, {"get", "put"}}]
SchemaChoices == [ref : Slots \cup {"-"}, in : Slots \cup {"-", "none"}]
Choices == IF Family = "paths" THEN PathChoices ELSE {c \in SchemaChoices : c.ref # "-" => c.in = "none"}
Op(s, m) == Merge(One("summary", S(s \o m)), One("responses", One("200", One("description", S("d")))))
ValOf(s, c) ==
  LET r == IF c.ref = "-" THEN EMPTYO ELSE One("$ref", S(Text_(s, c.ref))) IN
  IF Family = "paths" THEN Merge(r, Obj(TLCEval([m \in c.ms |-> Op(s, m)])))
  ELSE IF c.ref # "-" THEN r
  ELSE Merge(One("title", S(s)), IF c.in = "none" THEN EMPTYO
                                ELSE One("properties", One("p", IF c.in = "-" THEN One("type", S("string")) ELSE One("$ref", S(Text_(s, c.in))))))
Info_ == One("info", o([title |-> S("t"), version |-> S("1")]))
MainDoc ==
  LET v == IF Ver = "2.0" THEN One("swagger", S("2.0")) ELSE One("openapi", S("3.0.0"))
      two == IF Family = "paths" THEN o([x \in {"/a", "/b"} |-> ValOf(IF x = "/a" THEN "A" ELSE "B", pick[IF x = "/a" THEN "A" ELSE "B"])])
             ELSE o([x \in {"A", "B"} |-> ValOf(x, pick[x])])
      (* something that leads to the other document *)
      use == One("/use", One("get", One("responses", One("200", Merge(One("description", S("")),
                IF Ver = "2.0" THEN One("schema", One("$ref", S("e.json#/x")))
                ELSE One("content", One("a/b", One("schema", One("$ref", S("e.json#/x")))))))))) IN
  Merge(v, Merge(Info_,
    IF Family = "paths" THEN One("paths", two)
    ELSE Merge(One("paths", use), IF Ver = "2.0" THEN One("definitions", two) ELSE One("components", One("schemas", two)))))
World_ == [u \in {Main, Other} |-> IF u = Main THEN MainDoc ELSE One("x", ValOf("X", pick["X"]))]

G_ == Gram(Ver)
Start_ == {<<Main, <<>>, IF Ver = "2.0" THEN <<"Swagger">> ELSE <<"OpenApi">>>>}
There == LET n == Needed(G_, World_, Start_) IN {s \in Slots : s # "X" \/ Other \in DocsOf(n)}
Kids(p) == [k \in {c \in DOMAIN G_["PathItem"].c : Holder(G_, World_, p, c) # <<>>} |-> Holder(G_, World_, p, k)]
Init == pick \in [Slots -> Choices] /\ done = FALSE /\ fin = {} /\ ends = {}
Next == /\ ~done
        /\ fin' = IF Family # "paths" THEN {} ELSE {[s |-> s, p |-> PlaceOf(s), own |-> pick[s].ref = "-",
                     kids |-> LET k == Kids(PlaceOf(s)) IN {<<c, CHOOSE t \in Slots : PlaceOf(t) = k[c]>> : c \in DOMAIN k}] : s \in There}
        /\ ends' = {[p |-> n.p, cyc |-> Cyclic(World_, n.p), last |-> End(World_, n.p)] : n \in AllRefs(G_, World_, Needed(G_, World_, Start_))}
        /\ done' = TRUE /\ UNCHANGED pick

(* what is written at the place itself wins *)
Own == done /\ Family = "paths" => \A f \in fin : \A m \in pick[f.s].ms : <<m, f.s>> \in f.kids
(* without a reference there is nothing else *)
Alone == done /\ Family = "paths" => \A f \in fin : pick[f.s].ref = "-" => f.kids = {<<m, f.s>> : m \in pick[f.s].ms}
(* what is missing is what the referred one finally is, unless this is a loop *)
Inherit == done /\ Family = "paths" => \A f \in fin : \A g \in fin :
             pick[f.s].ref = g.s /\ ~Cyclic(World_, f.p) => {k \in f.kids : k[1] \notin pick[f.s].ms} = {k \in g.kids : k[1] \notin pick[f.s].ms}
(* a chain ends at something that is not a reference, or is a loop *)
Ended == done => \A e \in ends : e.cyc \/ RefText(Val(World_, e.last)) = ""
Emit == done => PrintT("@W " \o ToJson([docs |-> World_, main |-> Main, fin |-> fin, ends |-> ends]))
===========================================================================
