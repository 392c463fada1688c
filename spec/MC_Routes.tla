----------------------------- MODULE MC_Routes -----------------------------
(* relocations over two documents and two version steps *)
EXTENDS Store, Json
CONSTANT MaxRoutes
Ptrs == {<<>>, <<"a">>, <<"ab">>, <<"a", "b">>, <<"a", "b", "a", "z">>, <<"a/b", "c">>, <<"abc">>, <<"x", "ab">>}
VARIABLES routes, n

a == <<"a">>  ab == <<"ab">>  a_b == <<"a", "b">>  b == <<"b">>
Abs(p) == [k |-> "abs", p |-> p]
Rel(p) == [k |-> "rel", p |-> p]
Nest(r) == [k |-> "nest", r |-> r]
R(f, t) == [from |-> f, to |-> t]
Menu == {R(a, Abs(<<"x">>)), R(ab, Abs(<<"y", "z">>)), R(a_b, Abs(<<"ab">>)), R(<<"a/b">>, Abs(<<"w">>)),
         R(<<>>, Nest({R(a, Rel(<<"p">>)), R(a_b, Rel(<<"q", "r">>))})),
         R(<<>>, Nest({R(a, Abs(<<"c", "d">>))})),
         R(a, Nest({R(b, Rel(<<"k">>)), R(<<"b", "a">>, Abs(<<"m">>))})),
         R(a, Nest({R(b, Nest({R(a, Rel(<<"deep">>))}))})),
         R(<<"x">>, Abs(<<"x", "x">>))}
Init == routes = <<>> /\ n = 0
Next == /\ n < MaxRoutes
        /\ \E u \in {"u", "w"}, v \in {"2.0", "3.0.0"}, m \in Menu : routes' = AddRoutes(routes, u, v, {m})
        /\ n' = n + 1
Docs == {"u", "w"}
Same == \A u \in Docs, p \in Ptrs : u \notin DOMAIN routes => Relocate(routes, u, p, "1.2", "3.0.0") = p
Steps == \A u \in Docs, p \in Ptrs : Relocate(routes, u, p, "1.2", "3.0.0") =
           Relocate(routes, u, Relocate(routes, u, p, "1.2", "2.0"), "2.0", "3.0.0")
Nop == \A u \in Docs, p \in Ptrs, v \in {"1.2", "2.0", "3.0.0"} : Relocate(routes, u, p, v, v) = p
(* whole names: renaming a name that no route mentions does not matter *)
Whole == \A u \in Docs : Relocate(routes, u, <<"abc">>, "1.2", "3.0.0") = <<"abc">> \/
           \E v \in {"2.0", "3.0.0"} : \E x \in Flat(RoutesOf(routes, u, v), <<>>) : x.from = <<>>

RECURSIVE Out(_)
Out(rs) == {<<RelPtr(x.from), x.to.k, IF x.to.k = "nest" THEN Out(x.to.r) ELSE {<<"", RelPtr(x.to.p), {}>>}>> : x \in rs}
Emit == PrintT("@R " \o ToJson([
  routes |-> {<<u, v, {<<Ptr(x.from), x.to.k, IF x.to.k = "nest" THEN Out(x.to.r) ELSE {<<"", RelPtr(x.to.p), {}>>}>> : x \in RoutesOf(routes, u, v)}>> : u \in DOMAIN routes, v \in {"2.0", "3.0.0"}},
  cases |-> {<<u, Ptr(p), v[1], v[2], Ptr(Relocate(routes, u, p, v[1], v[2]))>> :
               u \in Docs, p \in Ptrs, v \in {<<"1.2", "2.0">>, <<"1.2", "3.0.0">>, <<"2.0", "3.0.0">>, <<"2.0", "2.0">>}}]))
===========================================================================
