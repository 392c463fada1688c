---------------------------- MODULE MC_Grammar ----------------------------
(* hands the grammar to the generators and checks that it is closed *)
EXTENDS Grammar, Json
VARIABLE v
Init == v \in {"1.2", "2.0", "3.0.0"}
Next == FALSE /\ v' = v
Closed == \A c \in DOMAIN Gram(v) : \A k \in DOMAIN Gram(v)[c].c :
            LET b == Gram(v)[c].c[k] IN
            /\ \A i \in 1 .. Len(b) - 1 : b[i] \in {"list", "map", "ref", "bool"}
            /\ LastOf(b) \in DOMAIN Gram(v) \cup {"str", "Callback"}
Disjoint == \A c \in DOMAIN Gram(v) : Gram(v)[c].f \cap DOMAIN Gram(v)[c].c = {}
Aliases == \A c \in DOMAIN Gram(v) : \A a \in DOMAIN Gram(v)[c].a :
            Gram(v)[c].a[a] \in Gram(v)[c].f \cup DOMAIN Gram(v)[c].c
Emit == PrintT("@G " \o ToJson([v |-> v, g |-> Gram(v)]))
===========================================================================
