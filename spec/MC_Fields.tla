----------------------------- MODULE MC_Fields -----------------------------
(* one field f0 with an alias i0, declared in all ways in a type and kept or
   redefined in a type derived from it                                      *)
EXTENDS Fields, Json
D(a, b, c, d) == [key |-> "f0", required |-> a, restricted |-> b, readonly |-> c, dflt |-> d, attached |-> FALSE]
Dec == {D(a, b, c, d) : a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN, d \in {NULL, S("d")}}
Al == "i0" :> [alias |-> TRUE, key |-> "f0", dflt |-> NULL]
DocsOf == {EMPTYO, One("f0", NULL), One("f0", S("x"))}
Ops == {[op |-> "write", name |-> "f0", v |-> S("w")], [op |-> "write", name |-> "i0", v |-> NULL], [op |-> "read", name |-> "f0"], [op |-> "read", name |-> "i0"]}
VARIABLES d1_, d2_, doc_, h_
Init == d1_ \in Dec /\ d2_ \in {<<>>} \cup {<<d>> : d \in Dec} /\ doc_ \in DocsOf /\ h_ = <<>>
Next == Len(h_) < 1 /\ \E o \in Ops : h_' = Append(h_, o) /\ UNCHANGED <<d1_, d2_, doc_>>
T1 == NewType(<<>>, <<>>, "f0" :> d1_, <<>>, Al)
T2 == NewType(<<T1>>, <<1>>, IF d2_ = <<>> THEN <<>> ELSE "f0" :> d2_[1], <<>>, <<>>)
Ts == <<T1, T2>>
Made(k) == Build(Ts, <<"obj", k>>, doc_, {})
RECURSIVE After(_, _)
After(n, q) == IF q = <<>> THEN n
               ELSE LET m == IF q[1].op = "write" THEN Write(Ts, n, q[1].name, q[1].v) ELSE n IN After(IF IsErr(m) THEN n ELSE m, Tail(q))
(* an alias shows what the field shows *)
Alike == \A k \in {1, 2} : LET n == After(Made(k), h_) IN Read(Ts, n, "f0") = Read(Ts, n, "i0")
(* what was written is read and dumped *)
Visible == h_ # <<>> /\ h_[1].op = "write" =>
   \A k \in {1, 2} : LET y == Ts[k].f["f0"]
                         n == After(Made(k), h_) IN
     ~y.readonly /\ ~y.restricted => /\ Read(Ts, n, "f0") = <<"val", h_[1].v>>
                                     /\ Dumped(Ts, n) = IF IsNull(h_[1].v) THEN EMPTYO ELSE One("f0", h_[1].v)
(* the derived type leaves its base as it was *)
Apart == T1.f["f0"] = d1_ /\ (d2_ = <<>> => T2.f = T1.f) /\ "i0" \in DOMAIN T2.i
Emit == PrintT("@F " \o ToJson([d1 |-> d1_, d2 |-> d2_, doc |-> doc_, h |-> h_]))
=============================================================================
