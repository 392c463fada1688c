---------------------------- MODULE MC_Children ----------------------------
(* short histories on a small tree:
   1 {allOf: 2 [3], properties: 4 {a: 5}}    6 {items: 7, allOf: 8 []}    9 {}  *)
EXTENDS Children, Json
CONSTANTS Depth
Leaf(n) == Obj("type" :> S(n))
H0 == [kind |-> <<"obj", "list", "obj", "map", "obj", "obj", "obj", "list", "obj">>,
       own |-> <<EMPTYO, EMPTYO, Leaf("c"), EMPTYO, Leaf("e"), Leaf("f"), Leaf("g"), EMPTYO, Leaf("i")>>,
       kids |-> <<"allOf" :> 2 @@ "properties" :> 4, "0" :> 3, <<>>, "a" :> 5, <<>>, "items" :> 7 @@ "allOf" :> 8, <<>>, <<>>, <<>>>>,
       par |-> <<0, 1, 2, 1, 4, 0, 6, 6, 0>>, ppar |-> <<0, 1, 2, 1, 4, 0, 6, 0, 0>>,
       cache |-> <<{}, {}, {}, {}, {}, {}, {}, {}, {}>>]
Objs == {1, 3, 6, 9}
Ok_(t, n, m) == n \notin Below(t, m)
VARIABLES h_, t_, seen_
vars == <<h_, t_, seen_>>
Init == h_ = H0 /\ t_ = <<>> /\ seen_ = FALSE
Do(e, n) == Len(t_) < Depth /\ h_' = n /\ t_' = Append(t_, e) /\ UNCHANGED seen_
Attach_ == \E n \in Objs, m \in {9, 3, 7} : Ok_(h_, n, m) /\ Do([op |-> "attach", at |-> n, name |-> "items", x |-> m], Attach(h_, n, "items", m))
AttachC == \E n \in Objs, m \in {2, 8} : Ok_(h_, n, m) /\ Do([op |-> "attach", at |-> n, name |-> "allOf", x |-> m], Attach(h_, n, "allOf", m))
Set_ == \E n \in Objs, m \in {9, 7} : Ok_(h_, n, m) /\ Do([op |-> "set", at |-> n, name |-> "items", x |-> m], Assign(h_, n, "items", m))
Put_ == \E m \in {9, 6}, k \in {"a", "b"} : Ok_(h_, 4, m) /\ Do([op |-> "put", at |-> 4, name |-> k, x |-> m], PutAt(h_, 4, k, m))
Append_ == \E n \in {2, 8}, m \in {9, 6} : Ok_(h_, n, m) /\ Do([op |-> "append", at |-> n, x |-> m], Add(h_, n, m))
Extend_ == \E n \in {2, 8} : Ok_(h_, n, 9) /\ Ok_(h_, n, 5) /\ Do([op |-> "extend", at |-> n, xs |-> <<9, 5>>], AddAll(h_, n, <<9, 5>>))
Merge_ == \E n \in {1, 6, 9}, m \in {1, 6, 9} : n # m /\ n \notin Below(h_, m) /\ Do([op |-> "merge", at |-> n, x |-> m], MergeInto(h_, n, m))
Look == \E n \in {1, 2, 4, 6} : Len(t_) < Depth /\ h_' = KidsAsIs(h_, n).s /\ t_' = Append(t_, [op |-> "kids", at |-> n]) /\ seen_' = TRUE
Next == Attach_ \/ AttachC \/ Set_ \/ Put_ \/ Append_ \/ Extend_ \/ Merge_ \/ Look

(* modified only before it is first enumerated, everything is shown as it is *)
Plain == ~seen_ => \A n \in 1 .. 9 : KidsAsIs(h_, n).out = Kids(h_, n)
Acyclic == \A n \in 1 .. 9 : \A m \in DOMAIN h_.kids[n] : n \notin Below(h_, h_.kids[n][m])
(* every name of an enumeration belongs to one object, which is below *)
Named == \A n \in 1 .. 9 : LET ks == Kids(h_, n) IN /\ Cardinality({k[1] : k \in ks}) = Cardinality(ks)
                                                    /\ \A k \in ks : k[2] \in Below(h_, n) /\ h_.kind[k[2]] = "obj"
(* merging only fills, and leaves the source as it was *)
Fills == [][\A n, m \in {1, 6, 9} : t_' = Append(t_, [op |-> "merge", at |-> n, x |-> m]) =>
             /\ h_'.kids[m] = h_.kids[m]
             /\ \A k \in DOMAIN h_.kids[n] : ~Vacant(h_, n, k) => h_'.kids[n][k] = h_.kids[n][k]
             /\ \A k \in DOMAIN h_.kids[m] : ~Vacant(h_, m, k) => ~Vacant(h_', n, k)]_vars
Emit == (Len(t_) = Depth /\ t_[Depth].op # "kids") => PrintT("@H " \o ToJson(t_))
=============================================================================
