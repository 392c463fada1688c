----------------------------- MODULE MC_Store -----------------------------
(* every store content of up to MaxObjs objects, every lookup and collection *)
EXTENDS Store, Json
CONSTANTS Urls, Vers, MaxObjs
Ptrs == {<<>>, <<"a">>, <<"ab">>, <<"a", "b">>, <<"a/b">>, <<"a", "b", "c">>}
VARIABLES objs, n
Init == objs = {} /\ n = 1
Put1 == /\ n <= MaxObjs
       /\ \E u \in Urls, p \in Ptrs, v \in Vers : objs' = StSet(objs, u, p, v, n)
       /\ n' = n + 1
Take == \E u \in Urls, p \in Ptrs, v \in Vers : objs' = StRemove(objs, u, p, v) /\ objs' # objs /\ n' = n
Next == Put1 \/ Take
View_ == {<<x.u, x.p, x.v, x.id>> : x \in objs}

(* an object is found under its own address; what is below a place is what is removed *)
Own == \A x \in objs : StGet(objs, x.u, x.p, x.v) = [hit |-> TRUE, id |-> x.id, rest |-> <<>>]
Unique == \A x, y \in objs : x.u = y.u /\ x.p = y.p /\ x.v = y.v => x = y
Separate == \A u \in Urls, p \in Ptrs, v \in Vers :
   LET o2 == StRemove(objs, u, p, v) IN
   /\ StUnder(o2, u, p, v) = {}
   /\ \A w \in Vers, q \in Ptrs, d \in Urls : (d # u \/ w # v) => StGet(o2, d, q, w) = StGet(objs, d, q, w)
   /\ Cardinality(objs) = Cardinality(o2) + Cardinality(StUnder(objs, u, p, v))
Closest == \A u \in Urls, p \in Ptrs, v \in Vers : LET g == StGet(objs, u, p, v) IN
   g.hit => \E x \in objs : x.id = g.id /\ x.p \o g.rest = p /\ \A y \in objs : (y.u = u /\ y.v = v /\ IsPre(y.p, p)) => Len(y.p) <= Len(x.p)

Emit == PrintT("@S " \o ToJson([
   objs |-> {<<x.u, Ptr(x.p), x.v, x.id>> : x \in objs},
   get |-> {<<u, Ptr(p), v, LET g == StGet(objs, u, p, v) IN IF g.hit THEN g.id ELSE 0, LET g == StGet(objs, u, p, v) IN g.rest>> : u \in Urls, p \in Ptrs, v \in Vers},
   und |-> {<<u, Ptr(p), v, StUnder(objs, u, p, v), {x.id : x \in StRemove(objs, u, p, v)}>> : u \in Urls, p \in Ptrs, v \in Vers}]))
===========================================================================
