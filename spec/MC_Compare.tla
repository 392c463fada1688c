---------------------------- MODULE MC_Compare ----------------------------
(* every pair of small structures and every selection of keys *)
EXTENDS Compare, Json
CONSTANT Deep
VARIABLES px, py, inc, exc
Prims == {S("a"), S("b"), Num("1"), Num("-2")}
KS == {"k", "a/b"}
ObjsOf(V) == {Obj(f) : f \in UNION {[d -> V] : d \in SUBSET KS}}
L1 == {Arr(q) : q \in {<<>>, <<S("a")>>, <<S("a"), S("b")>>, <<S("b"), S("a")>>, <<S("b"), S("b")>>, <<Num("1")>>, <<Num("1"), Num("-2")>>, <<Num("-2"), Num("1")>>}}
O1 == ObjsOf(IF Deep THEN Prims ELSE {S("a"), Num("1")})
L2 == {Arr(<<u>>) : u \in O1} \cup {Arr(<<u, v>>) : u \in ObjsOf({S("a")}), v \in ObjsOf({S("a")})}
O2 == {One(k, v) : k \in KS, v \in L1 \cup (IF Deep THEN L2 ELSE {}) \cup ObjsOf({S("a")})}
All == Prims \cup L1 \cup O1 \cup L2 \cup O2
Init == px \in All /\ py \in All /\ inc \in {{}, {"k"}} /\ exc \in {{}, {"k"}, {"a/b"}}
Next == UNCHANGED <<px, py, inc, exc>>
d == Cmp(px, py, "#", inc, exc)
Decides == (d = {}) = Same(px, py, inc, exc)
Mirror == {<<e[1]>> : e \in d} = {<<e[1]>> : e \in Cmp(py, px, "#", inc, exc)}
OncePerPlace == \A e, f \in d : e[1] = f[1] => e = f
Real == inc = {} => \A e \in d : At(px, Names(e[1])) # At(py, Names(e[1])) \/ \E i \in 1 .. Len(Names(e[1])) : IsIndex(Names(e[1])[i])
Emit == PrintT("@P " \o ToJson([x |-> px, y |-> py, inc |-> inc, exc |-> exc, out |-> d]))
===========================================================================
