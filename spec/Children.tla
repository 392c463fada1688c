----------------------------- MODULE Children -----------------------------
(* A heap of nodes.  Node i:
     kind[i]  "obj", "list", "map" or "lit" (plain value, or an empty place)
     own[i]   fields of an object, or the plain value
     kids[i]  name -> node
     par[i]   the node it was placed into, 0 if none
   Enumerating a node shows the nearest objects below it by relative name.

   cache and ppar model what the code keeps today, recorded defects included:
   a remembered enumeration per node, which only a change of that very node
   (and not of what it holds, nor an assignment to a name) makes it forget,
   and parents which containers do not tell to what they are given later.   *)
EXTENDS Values, Pointer

F(f, k, x) == TLCEval([q \in DOMAIN f \cup {k} |-> IF q = k THEN x ELSE f[q]])
NoCache == <<>>
Empty_ == [kind |-> <<>>, own |-> <<>>, kids |-> <<>>, par |-> <<>>, ppar |-> <<>>, cache |-> <<>>]
Sub(n, m) == RelPtr(<<n>>) \o "/" \o m

RECURSIVE Kids(_, _)
Kids(s, i) ==
  UNION {LET x == s.kids[i][n] IN
         CASE s.kind[x] = "obj" -> {<<n, x>>}
           [] s.kind[x] = "lit" -> {}
           [] OTHER -> {<<n \o "/" \o q[1], q[2]>> : q \in Kids(s, x)} : n \in DOMAIN s.kids[i]}

(* the code as it is: result and what is remembered afterwards *)
RECURSIVE KidsAsIs(_, _)
RECURSIVE Over(_, _, _, _)
Over(s, i, names, got) ==
  IF names = {} THEN [s |-> s, out |-> got]
  ELSE LET n == CHOOSE n \in names : TRUE
           x == s.kids[i][n]
           r == IF s.kind[x] \in {"list", "map"} THEN KidsAsIs(s, x) ELSE [s |-> s, out |-> {}]
           new == CASE s.kind[x] = "obj" -> {<<n, x>>}
                    [] s.kind[x] = "lit" -> {}
                    [] OTHER -> {<<n \o "/" \o q[1], q[2]>> : q \in r.out}
       IN Over(r.s, i, names \ {n}, got \cup new)
KidsAsIs(s, i) ==
  IF s.cache[i] # {} THEN [s |-> s, out |-> s.cache[i]]
  ELSE LET r == Over(s, i, DOMAIN s.kids[i], {})
       IN [s |-> [r.s EXCEPT !.cache = F(@, i, r.out)], out |-> r.out]

Forget(s, i) == [s EXCEPT !.cache = F(@, i, {})]
(* an empty place: nothing, an empty collection, or a plain value that means no *)
Vacant(s, i, n) == \/ n \notin DOMAIN s.kids[i]
                   \/ LET x == s.kids[i][n] IN CASE s.kind[x] \in {"list", "map"} -> DOMAIN s.kids[x] = {}
                                                 [] s.kind[x] = "lit" -> ~Truthy(s.own[x])
                                                 [] OTHER -> FALSE
Place(s, i, n, x) == [s EXCEPT !.kids = F(@, i, F(@[i], n, x))]
Attach(s, i, n, x) == Forget([Place(s, i, n, x) EXCEPT !.par = F(@, x, i), !.ppar = F(@, x, i)], i)
(* assignment to the name of a child *)
Assign(s, i, n, x) == [Place(s, i, n, x) EXCEPT !.par = F(@, x, i)]
PutAt(s, i, k, x) == Forget([Place(s, i, k, x) EXCEPT !.par = F(@, x, i)], i)
Add(s, i, x) == PutAt(s, i, NatStr(Cardinality(DOMAIN s.kids[i])), x)
RECURSIVE AddAll(_, _, _)
AddAll(s, i, xs) == IF xs = <<>> THEN Forget(s, i) ELSE AddAll(Add(s, i, xs[1]), i, Tail(xs))
MergeInto(s, i, j) ==
  LET names == {n \in DOMAIN s.kids[j] : Vacant(s, i, n) /\ ~Vacant(s, j, n)}
  IN Forget([s EXCEPT !.kids = F(@, i, TLCEval([n \in DOMAIN s.kids[i] \cup names |-> IF n \in names THEN s.kids[j][n] ELSE s.kids[i][n]]))], i)

RECURSIVE Dumped(_, _)
Dumped(s, i) ==
  CASE s.kind[i] = "lit" -> s.own[i]
    [] s.kind[i] = "list" -> Arr([q \in 1 .. Cardinality(DOMAIN s.kids[i]) |-> Dumped(s, s.kids[i][NatStr(q - 1)])])
    [] s.kind[i] = "map" -> Obj([k \in DOMAIN s.kids[i] |-> Dumped(s, s.kids[i][k])])
    [] OTHER -> LET shown == {n \in DOMAIN s.kids[i] : LET x == s.kids[i][n] IN
                                 ~(s.kind[x] \in {"list", "map"} /\ DOMAIN s.kids[x] = {})}
                IN Obj([k \in Keys(s.own[i]) \cup shown |-> IF k \in shown THEN Dumped(s, s.kids[i][k]) ELSE s.own[i][2][k]])

RECURSIVE Below(_, _)
Below(s, i) == {i} \cup UNION {Below(s, s.kids[i][n]) : n \in DOMAIN s.kids[i]}
=============================================================================
