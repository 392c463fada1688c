------------------------------- MODULE Diff -------------------------------
(* Comparison of two trees: when they are the same, and where they differ.
   CodeOut models what the code answers today, recorded defects included;
   it only serves to tell those from anything new.                         *)
EXTENDS Tree

(* numbers by value: 2 and 2.0 are the same number *)
NumVal(s) == IF EndsWith(s, ".0") THEN Upto(s, Len(s) - 2) ELSE s
RECURSIVE EqV(_, _)
EqV(u, v) ==
  IF u[1] # v[1] THEN FALSE
  ELSE CASE u[1] = "n" -> NumVal(u[2]) = NumVal(v[2])
         [] u[1] = "a" -> Len(u[2]) = Len(v[2]) /\ \A i \in 1 .. Len(u[2]) : EqV(u[2][i], v[2][i])
         [] u[1] = "o" -> Keys(u) = Keys(v) /\ \A k \in Keys(u) : EqV(u[2][k], v[2][k])
         [] OTHER -> u = v
Fld(g, x, k) == IF k \in Keys(x) THEN x[2][k] ELSE IF k \in DOMAIN g.dflt THEN g.dflt[k] ELSE NULL
RECURSIVE Same(_, _, _, _)
Same(G, b, x, y) ==
  LET e == Eff(b, x) IN
  IF e # Eff(b, y) THEN FALSE
  ELSE CASE e[1] = "lit" -> EqV(x, y)
         [] e[1] = "list" -> Len(x[2]) = Len(y[2]) /\ \A i \in 1 .. Len(x[2]) : Same(G, Tail(e), x[2][i], y[2][i])
         [] e[1] = "map" -> Keys(x) = Keys(y) /\ \A k \in Keys(x) : Same(G, Tail(e), x[2][k], y[2][k])
         [] OTHER -> LET g == G[e[1]] IN
                     /\ \A k \in g.f : EqV(Fld(g, x, k), Fld(g, y, k))
                     /\ \A k \in DOMAIN g.c : Given(x, k) = Given(y, k) /\ (Given(x, k) => Same(G, g.c[k], x[2][k], y[2][k]))
(* every position where they differ *)
RECURSIVE RawPlaces(_, _, _)
RawPlaces(u, v, at) ==
  IF EqV(u, v) THEN {}
  ELSE {at} \cup
       CASE u[1] = "a" /\ v[1] = "a" ->
              UNION {IF i > Len(u[2]) \/ i > Len(v[2]) THEN {Append(at, NatStr(i - 1))} ELSE RawPlaces(u[2][i], v[2][i], Append(at, NatStr(i - 1))) :
                     i \in 1 .. (IF Len(u[2]) > Len(v[2]) THEN Len(u[2]) ELSE Len(v[2]))}
         [] u[1] = "o" /\ v[1] = "o" ->
              UNION {IF k \notin Keys(u) \cap Keys(v) THEN {Append(at, k)} ELSE RawPlaces(u[2][k], v[2][k], Append(at, k)) : k \in Keys(u) \cup Keys(v)}
         [] OTHER -> {}
RECURSIVE Places(_, _, _, _, _)
Places(G, b, x, y, at) ==
  IF Same(G, b, x, y) THEN {}
  ELSE {at} \cup
       LET e == Eff(b, x) IN
       IF e # Eff(b, y) THEN {}
       ELSE CASE e[1] = "lit" -> RawPlaces(x, y, at)
              [] e[1] = "list" ->
                   UNION {IF i > Len(x[2]) \/ i > Len(y[2]) THEN {Append(at, NatStr(i - 1))} ELSE Places(G, Tail(e), x[2][i], y[2][i], Append(at, NatStr(i - 1))) :
                          i \in 1 .. (IF Len(x[2]) > Len(y[2]) THEN Len(x[2]) ELSE Len(y[2]))}
              [] e[1] = "map" ->
                   UNION {IF k \notin Keys(x) \cap Keys(y) THEN {Append(at, k)} ELSE Places(G, Tail(e), x[2][k], y[2][k], Append(at, k)) : k \in Keys(x) \cup Keys(y)}
              [] OTHER -> LET g == G[e[1]] IN
                   UNION {RawPlaces(Fld(g, x, k), Fld(g, y, k), Append(at, k)) : k \in g.f}
                   \cup UNION {IF Given(x, k) /\ Given(y, k) THEN Places(G, g.c[k], x[2][k], y[2][k], Append(at, k))
                               ELSE IF Given(x, k) \/ Given(y, k) THEN {Append(at, k)} ELSE {} : k \in DOMAIN g.c}
(* something that must be there is not, or something is there that must not be: reading it fails *)
RECURSIVE Broken(_, _, _)
Broken(G, b, x) ==
  LET e == Eff(b, x) IN
  CASE e[1] = "lit" -> FALSE
    [] e[1] = "list" -> \E i \in 1 .. Len(x[2]) : Broken(G, Tail(e), x[2][i])
    [] e[1] = "map" -> \E k \in Keys(x) : Broken(G, Tail(e), x[2][k])
    [] OTHER -> LET g == G[e[1]] IN ~(g.req \subseteq Keys(x)) \/ g.restr \cap Keys(x) # {}
                   \/ \E k \in Keys(x) \cap DOMAIN g.c : ~IsNull(x[2][k]) /\ Broken(G, g.c[k], x[2][k])

(* ------------------------------------------------ the code as it is ---- *)
PyNum(x) == IF x[1] = "b" THEN (IF x[2] = "true" THEN "1" ELSE "0") ELSE NumVal(x[2])
PyEq(u, v) == IF u[1] \in {"n", "b"} /\ v[1] \in {"n", "b"} THEN PyNum(u) = PyNum(v) ELSE u = v
Quick(u) == u[1] \in {"s", "b"} \/ (u[1] = "n" /\ ~Contains(u[2], "."))
PyType(u) == IF u[1] = "n" /\ Contains(u[2], ".") THEN "float" ELSE u[1]
Yes == <<"same", "">>
No(name) == <<"diff", name>>
Ans(c, name) == IF c THEN {Yes} ELSE {No(name)}
In(name, k) == Compose(name, <<k>>)
(* all of them in any order, the first difference counts *)
AnyOrder(os) == (UNION os \ {Yes}) \cup (IF \A o \in os : Yes \in o THEN {Yes} ELSE {})
RECURSIVE RawC(_, _, _)
RECURSIVE RawListC(_, _, _, _)
RawListC(u, v, name, i) ==
  IF i > Len(u[2]) THEN {Yes}
  ELSE IF i > Len(v[2]) THEN {<<"err">>}
  ELSE LET o == RawC(u[2][i], v[2][i], In(name, NatStr(i - 1)))
       IN (o \ {Yes}) \cup (IF Yes \in o THEN RawListC(u, v, name, i + 1) ELSE {})
RawC(u, v, name) ==
  IF Quick(u) THEN Ans(PyEq(u, v), name)
  ELSE IF PyType(u) # PyType(v) THEN {No(name)}
  ELSE CASE u[1] = "a" -> RawListC(u, v, name, 1)
         [] u[1] = "o" -> (IF Keys(u) \ Keys(v) # {} THEN {No(In(name, k)) : k \in Keys(u) \ Keys(v)}
                           ELSE IF Keys(v) \ Keys(u) # {} THEN {No(In(name, k)) : k \in Keys(v) \ Keys(u)}
                           ELSE AnyOrder({RawC(u[2][k], v[2][k], In(name, k)) : k \in Keys(u)}))
         [] OTHER -> Ans(PyEq(u, v), name)
RECURSIVE BodyC(_, _, _, _, _)
RECURSIVE ListC(_, _, _, _, _, _)
(* one attribute of an object *)
AttrC(G, b, x, y, name) ==
  IF ~Given(x, "v") \/ ~Given(y, "v") THEN Ans(Given(x, "v") = Given(y, "v"), name)
  ELSE LET u == x[2]["v"] v == y[2]["v"] e == Eff(b, u) IN
       IF e = <<"lit">> THEN (IF Eff(b, v) = e THEN RawC(u, v, name) ELSE {No(name)})
       ELSE IF e # Eff(b, v) THEN {No(name)} ELSE BodyC(G, e, u, v, name)
ElemC(G, b, u, v, name) == IF Eff(b, u) # Eff(b, v) THEN {No("")} ELSE BodyC(G, Eff(b, u), u, v, name)
ListC(G, b, x, y, name, i) ==
  IF i > Len(x[2]) THEN {Yes}
  ELSE IF Eff(b, x[2][i]) = <<"lit">> THEN Ans(PyEq(x[2][i], y[2][i]), In(name, NatStr(i - 1)))
  ELSE LET o == ElemC(G, b, x[2][i], y[2][i], In(name, NatStr(i - 1)))
       IN (o \ {Yes}) \cup (IF Yes \in o THEN ListC(G, b, x, y, name, i + 1) ELSE {})
BodyC(G, e, x, y, name) ==
  CASE e[1] = "list" -> IF Len(x[2]) # Len(y[2]) THEN {No("")} ELSE ListC(G, Tail(e), x, y, name, 1)
    [] e[1] = "map" -> (IF Keys(x) \ Keys(y) # {} THEN {No(In(name, k)) : k \in Keys(x) \ Keys(y)}
                        ELSE IF Keys(y) \ Keys(x) # {} THEN {No(In(name, k)) : k \in Keys(y) \ Keys(x)}
                        ELSE IF Keys(x) # {} /\ \A k \in Keys(x) : Eff(Tail(e), x[2][k]) = <<"lit">>
                        THEN UNION {Ans(PyEq(x[2][k], y[2][k]), In(name, k)) : k \in Keys(x)}
                        ELSE AnyOrder({ElemC(G, Tail(e), x[2][k], y[2][k], In(name, k)) : k \in Keys(x)}))
    [] OTHER -> LET g == G[e[1]]
                    one(z, k) == IF k \in Keys(z) THEN Obj("v" :> z[2][k]) ELSE EMPTYO
                IN AnyOrder({RawC(Fld(g, x, k), Fld(g, y, k), In(name, k)) : k \in g.f}
                            \cup {AttrC(G, g.c[k], one(x, k), one(y, k), In(name, k)) : k \in DOMAIN g.c})
CodeOut(G, b, x, y, base) == IF Eff(b, x) # Eff(b, y) THEN {No("")} ELSE BodyC(G, Eff(b, x), x, y, base)

(* which recorded defect an answer of the code as it is belongs to *)
Cause(G, b, x, y, out, base) ==
  LET ps == Places(G, b, x, y, <<>>)
      deep == {p \in ps : ~\E q \in ps : Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p}
      prim(p) == p # <<>> /\ BAt(G, b, x, FrontOf(p))[1] \in {"list", "map"} /\ BAt(G, b, y, FrontOf(p))[1] \in {"list", "map"}
      gone(p) == At(x, p) = MISSING \/ At(y, p) = MISSING
  IN IF out \notin CodeOut(G, b, x, y, base) THEN ""
     ELSE IF out = <<"err">> THEN "F-CMP-LIST"
     ELSE IF (out[1] = "same") = (ps = {}) THEN "F-CMP-PLACE"
     ELSE IF \E p \in deep : prim(p) THEN "F-CMP-PRIM"
     ELSE IF \E p \in deep : gone(p) THEN "F-CMP-LIST"
     ELSE "F-CMP-NUM"
=============================================================================
