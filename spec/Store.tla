------------------------------- MODULE Store -------------------------------
(* The object store: objects by document, pointer and version; relocations by
   document and version.  Pointers are compared name by name.

   objs:   set of [u |-> document, p |-> sequence of names, v |-> version, id |-> n]
   routes: document -> version -> set of [from |-> names, to |-> target]
           target: [k |-> "abs", p |-> names] an absolute place, or
                   [k |-> "rel", p |-> names] below the enclosing location, or
                   [k |-> "nest", r |-> set of routes] relocations below 'from' *)
EXTENDS Pointer

Versions == <<"1.2", "2.0", "3.0.0">>
VIdx(v) == CHOOSE i \in 1 .. Len(Versions) : Versions[i] = v

IsPre(a, b) == IsPrefixSeq(a, b)
Longest(S) == CHOOSE x \in S : \A y \in S : Len(y.p) <= Len(x.p)

Nothing == [hit |-> FALSE, id |-> 0, rest |-> <<>>]

StSet(o, u, p, v, id) == {x \in o : ~(x.u = u /\ x.p = p /\ x.v = v)} \cup {[u |-> u, p |-> p, v |-> v, id |-> id]}
StGet(o, u, p, v) ==
  LET c == {x \in o : x.u = u /\ x.v = v /\ IsPre(x.p, p)}
  IN IF c = {} THEN Nothing
     ELSE LET x == Longest(c) IN [hit |-> TRUE, id |-> x.id, rest |-> DropSeq(p, Len(x.p))]
Below(o, u, p, v) == {x \in o : x.u = u /\ x.v = v /\ IsPre(p, x.p)}
StUnder(o, u, p, v) == {<<RelPtr(DropSeq(x.p, Len(p))), x.id>> : x \in Below(o, u, p, v)}
StRemove(o, u, p, v) == o \ Below(o, u, p, v)

LongestFrom(S) == CHOOSE x \in S : \A y \in S : Len(y.from) <= Len(x.from)
(* one version step: the longest match on each nesting level *)
RECURSIVE Patch(_, _, _)
Patch(rs, before, rest) ==
  LET c == {x \in rs : IsPre(x.from, rest)}
  IN IF c = {} THEN before \o rest
     ELSE LET x == LongestFrom(c)
              after == DropSeq(rest, Len(x.from))
          IN CASE x.to.k = "abs" -> x.to.p \o after
               [] x.to.k = "rel" -> before \o x.to.p \o after
               [] x.to.k = "nest" -> Patch(x.to.r, before \o x.from, after)
(* the same with the match that is longest over all levels *)
RECURSIVE Flat(_, _)
Flat(rs, before) ==
  UNION {CASE x.to.k = "abs" -> {[from |-> before \o x.from, to |-> x.to.p]}
           [] x.to.k = "rel" -> {[from |-> before \o x.from, to |-> before \o x.to.p]}
           [] x.to.k = "nest" -> Flat(x.to.r, before \o x.from) : x \in rs}
PatchFlat(rs, p) ==
  LET c == {x \in Flat(rs, <<>>) : IsPre(x.from, p)}
  IN IF c = {} THEN p ELSE LET x == LongestFrom(c) IN x.to \o DropSeq(p, Len(x.from))

RoutesOf(r, u, v) == IF u \in DOMAIN r /\ v \in DOMAIN r[u] THEN r[u][v] ELSE {}
(* later relocations for the same place replace earlier ones *)
AddRoutes(r, u, v, new) ==
  LET old == RoutesOf(r, u, v)
      froms == {x.from : x \in new}
      now == {x \in old : x.from \notin froms} \cup new
      vs == IF u \in DOMAIN r THEN DOMAIN r[u] ELSE {}
  IN [q \in DOMAIN r \cup {u} |->
        IF q # u THEN r[q] ELSE [w \in vs \cup {v} |-> IF w = v THEN now ELSE r[u][w]]]

RECURSIVE RelocFrom(_, _, _, _, _)
RelocFrom(r, u, p, i, j) == IF i > j THEN p ELSE RelocFrom(r, u, Patch(RoutesOf(r, u, Versions[i]), <<>>, p), i + 1, j)
Relocate(r, u, p, v1, v2) == RelocFrom(r, u, p, VIdx(v1) + 1, VIdx(v2))

(* newest version not above the limit in which something is found *)
RECURSIVE UntilFrom(_, _, _, _, _, _)
UntilFrom(o, r, u, p, v1, j) ==
  IF j < VIdx(v1) THEN [hit |-> FALSE, id |-> 0, rest |-> <<>>, p |-> <<>>, v |-> ""]
  ELSE LET q == Relocate(r, u, p, v1, Versions[j])
           g == StGet(o, u, q, Versions[j])
       IN IF g.hit THEN [hit |-> TRUE, id |-> g.id, rest |-> g.rest, p |-> q, v |-> Versions[j]]
          ELSE UntilFrom(o, r, u, p, v1, j - 1)
StUntil(o, r, u, p, v1, v2) == UntilFrom(o, r, u, p, v1, VIdx(v2))
===========================================================================
