---------------------------- MODULE MC_Session ----------------------------
(* every sequence of upgrades in a session *)
EXTENDS Session, Json
CONSTANTS Depth, Doc, Replaced
Targets == {"1.2", "2.0", "3.0.0", "1.1", "3.0", "2", ""}
VARIABLES hs, cur, h
Init == hs = (IF LoadOk(Doc) THEN <<Loaded(Doc)>> ELSE <<>>) /\ cur = "" /\ h = <<>>
Up == \E k \in 1 .. Len(hs), to \in Targets :
   /\ Len(h) < Depth
   /\ IF UpOk(to)
      THEN LET n == Upgraded(hs[k], to, Replaced) IN
           /\ hs' = Append(hs, n) /\ cur' = n.v
           /\ h' = Append(h, [k |-> k, to |-> to, out |-> <<"ok", n.v, n.marks>>, cur |-> n.v, steps |-> Steps(hs[k].v, to)])
      ELSE /\ UNCHANGED <<hs, cur>>
           /\ h' = Append(h, [k |-> k, to |-> to, out |-> <<"err">>, cur |-> cur, steps |-> <<>>])
Next == Up
(* nothing is ever older than the description; in several steps the same is reached as in one *)
NotOlder == \A i \in DOMAIN hs : Rank(hs[i].v) >= Rank(Doc)
Same == \A i \in DOMAIN hs : \A a \in {"1.2", "2.0", "3.0.0"}, b \in {"1.2", "2.0", "3.0.0"} :
           Rank(a) <= Rank(b) => Upgraded(Upgraded(hs[i], a, FALSE), b, FALSE).v = Upgraded(hs[i], b, FALSE).v
Emit == Len(h) = Depth => PrintT("@S " \o ToJson(h))
=============================================================================
