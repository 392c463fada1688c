------------------------------ MODULE MC_Diff ------------------------------
(* all pairs of small objects of some kinds *)
EXTENDS Diff, Json
CONSTANTS Ver
G == TLCEval(Gram(Ver))
O(k, v) == Obj(k :> v)
O2(k, v, l, w) == Obj(k :> v @@ l :> w)
L(q) == Arr(q)
Raws == {S("x"), S(""), Num("1"), Num("1.0"), Num("0"), TRUE_, FALSE_, NULL, EMPTYA, EMPTYO, L(<<S("x")>>), L(<<S("x"), Num("1")>>), L(<<Num("1"), S("x")>>),
         O("a", S("x")), O("b", S("x")), O2("a", S("x"), "b/~", Num("1")), O("a", L(<<S("x"), O("k", NULL)>>))}
Docs20 ==
  [Schema |-> {EMPTYO} \cup {O("default", v) : v \in Raws} \cup {O("required", v) : v \in {EMPTYA, L(<<S("x")>>), L(<<S("y")>>), L(<<S("x"), S("y")>>)}}
      \cup {O("additionalProperties", v) : v \in {TRUE_, FALSE_, EMPTYO, O("type", S("x")), NULL}}
      \cup {O("allOf", v) : v \in {EMPTYA, L(<<EMPTYO>>), L(<<EMPTYO, EMPTYO>>), L(<<EMPTYO, O("type", S("x"))>>)}}
      \cup {O("properties", v) : v \in {EMPTYO, O("a", EMPTYO), O("b", EMPTYO), O2("a", EMPTYO, "b/~", O("items", O("type", S("x"))))}},
   Operation |-> {O("tags", L(q)) : q \in {<<>>, <<S("a")>>, <<S("b")>>, <<S("a"), S("b")>>, <<S("a"), S("c")>>}}
      \cup {O("security", L(q)) : q \in {<<>>, <<EMPTYO>>, <<O("k", L(<<S("a")>>))>>, <<O("k", L(<<S("a"), S("b")>>))>>, <<O("k", L(<<S("a"), S("c")>>))>>, <<O2("k", EMPTYA, "l", EMPTYA)>>}}
      \cup {O("parameters", L(q)) : q \in {<<O("$ref", S("#/x"))>>, <<O("name", S("a"))>>, <<O("name", S("a")), O("$ref", S("#/x"))>>, <<O("name", S("a")), O("name", S("b"))>>}}
      \cup {O("responses", v) : v \in {O("200", O("description", S("a"))), O("200", O("$ref", S("#/x"))), O("404", O("description", S("a"))), O2("200", O("description", S("a")), "default", EMPTYO)}}]
Docs30 ==
  [Link |-> {O("parameters", v) : v \in {EMPTYO, O("a", S("x")), O("a", S("y")), O2("a", S("x"), "b", S("y")), O2("a", S("x"), "b", S("z"))}} \cup {O("server", EMPTYO), EMPTYO},
   ServerVariable |-> {O2("default", S("x"), "enum", L(q)) : q \in {<<>>, <<S("a")>>, <<S("b")>>, <<S("a"), S("b")>>, <<S("a"), S("c")>>}} \cup {O("default", v) : v \in Raws},
   Operation |-> {O("callbacks", v) : v \in {EMPTYO, O("c", EMPTYO), O("c", O("$ref", S("#/x"))), O("c", O("{$url}", EMPTYO)), O("c", O("{$url}", O("get", EMPTYO)))}}]
Docs == TLCEval(IF Ver = "2.0" THEN Docs20 ELSE Docs30)
Rel == TLCEval([c \in DOMAIN Docs |-> {p \in Docs[c] \X Docs[c] : Same(G, <<c>>, p[1], p[2])}])
VARIABLES cls_, a_, b_
Init == cls_ \in DOMAIN Docs /\ a_ \in Docs[cls_] /\ b_ = EMPTYO
Next == b_ = EMPTYO /\ b_' \in Docs[cls_] \ {EMPTYO} /\ UNCHANGED <<cls_, a_>>
Kind_ == <<cls_>>
Twice == Same(G, Kind_, a_, b_) = Same(G, Kind_, b_, a_) /\ Same(G, Kind_, a_, a_)
Third == <<a_, b_>> \in Rel[cls_] => \A c \in Docs[cls_] : <<b_, c>> \in Rel[cls_] => <<a_, c>> \in Rel[cls_]
Told == LET ps == TLCEval(Places(G, Kind_, a_, b_, <<>>)) IN (ps = {}) = Same(G, Kind_, a_, b_) /\ ps = Places(G, Kind_, b_, a_, <<>>)
             /\ \A p \in ps : \A i \in 0 .. Len(p) : SubSeq(p, 1, i) \in ps
Emit == PrintT("@P " \o ToJson(<<cls_, a_, b_>>))
=============================================================================
