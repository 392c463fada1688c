----------------------------- MODULE MC_Fetch -----------------------------
(* every history of requests and changes of two addresses *)
EXTENDS Fetch, Json
CONSTANTS Depth, Hook12
Us == {"http://h/a.json", "http://h/b.json"}
Val_(k) == <<"v", Obj([a |-> S(k)])>>
Cs == {BAD, Val_("1"), Val_("2"), <<"v", EMPTYO>>}
Addr(u) == IF Hook12 /\ u = "http://h/a.json" THEN "http://h/b.json" ELSE u
VARIABLES st, h, first, fetched
vars == <<st, h, first, fetched>>
Init == /\ st = [w |-> EMPTYF, f |-> EMPTYF, kept |-> EMPTYF, q |-> <<>>, qd |-> EMPTYF]
        /\ h = <<>> /\ first = [u \in Us |-> BAD] /\ fetched = [u \in Us |-> 0]
Change == \E u \in Us, c \in Cs :
   /\ At_(st.w, u) # c
   /\ st' = [st EXCEPT !.w = Set(@, u, c)]
   /\ h' = Append(h, [op |-> "put", u |-> u, c |-> c])
   /\ UNCHANGED <<first, fetched>>
Ask == \E u \in Us, n \in {<<>>, <<"a">>, <<"b">>} :
   LET r == Request(st, u, Addr(u), n, "default") IN
   /\ st' = r.st
   /\ h' = Append(h, [op |-> "get", u |-> u, n |-> n, out |-> r.out, log |-> r.log])
   /\ fetched' = IF r.log # <<>> /\ u \in DOMAIN r.st.kept THEN [fetched EXCEPT ![u] = @ + 1] ELSE fetched
   /\ first' = IF u \notin DOMAIN st.kept /\ u \in DOMAIN r.st.kept THEN [first EXCEPT ![u] = At_(st.w, Addr(u))] ELSE first
Next == Len(h) < Depth /\ (Change \/ Ask)
(* a document is fetched at most once with success, its copy is what was there then; what is not usable is never kept *)
Once == \A u \in Us : fetched[u] <= 1
Copy == \A u \in DOMAIN st.kept : first[u] = <<"v", st.kept[u]>> /\ Usable(first[u])
Surface == \A i \in DOMAIN h : h[i].op = "get" /\ h[i].out[1] = "ok" => \E u \in DOMAIN st.kept : u = h[i].u
Emit == Len(h) = Depth /\ h[Depth].op = "get" => PrintT("@H " \o ToJson(h))
=============================================================================
