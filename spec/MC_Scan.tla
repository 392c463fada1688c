------------------------------ MODULE MC_Scan ------------------------------
(* every pair of scanners with up to two registrations over three types, on
   a document with all of them *)
EXTENDS Scan, Json
VARIABLES one_, two_, leaves
Types == {"Parameter", "Header", "Response"}
Regs == {<<>>} \cup {<<[id |-> 1, cls |-> c]>> : c \in {<<"Parameter">>, <<"Header", "Response">>, <<"Header", "Parameter">>}}
        \cup {<<[id |-> 1, cls |-> <<c>>], [id |-> 2, cls |-> d]>> : c \in {"Parameter", "Header"}, d \in {<<"Header">>, <<"Response", "Header">>, <<"Parameter", "Parameter">>}}
Scs == {[regs |-> r, res |-> x] : r \in Regs, x \in BOOLEAN}
LeafSets == {<<>>, <<"Response">>, <<"Parameter">>, <<"Parameter", "Header">>}
Init == one_ \in Scs /\ two_ \in Scs /\ leaves \in LeafSets
Next == UNCHANGED <<one_, two_, leaves>>
P == Obj([name |-> S("n"), in |-> S("query"), schema |-> Obj([type |-> S("string")])])
H == Obj([description |-> S("h"), schema |-> Obj([type |-> S("string")])])
Doc == One("components", Obj([parameters |-> One("p/q", P), headers |-> One("h~", H),
          responses |-> One("r", Obj([description |-> S("d"), headers |-> Obj([x |-> H, y |-> H])]))]))
VisOf == TLCEval([l \in LeafSets |-> TLCEval(Visit(G30, <<"OpenApi">>, Doc, <<>>, Range(l)))])
all == VisOf[<<>>]
vis == VisOf[leaves]
Once == \A n, m \in vis : n[1] = m[1] => n = m
Leafs == vis \subseteq all /\ \A n \in all \ vis : \E m \in vis : m[2] \in Range(leaves) /\ IsPrefixSeq(m[1], n[1]) /\ m # n
(* every registration for exactly the type is served once, results pair with calls *)
Served == \A k \in Types : LET q == CallsFor(one_, <<k>>) IN
   Len(q) = Cardinality({p \in (1 .. Len(one_.regs)) \X (1 .. 2) : p[2] <= Len(one_.regs[p[1]].cls) /\ one_.regs[p[1]].cls[p[2]] = k})
Out(app) == {w \in {<<Ptr(n[1]), LogOf(<<one_, two_>>, IF app THEN <<n[2]>> \o SuperOf("3.0.0", n[2]) ELSE <<n[2]>>)>> : n \in vis} : w[2] # <<>>}
Emit == PrintT("@C " \o ToJson([a |-> one_, b |-> two_, leaves |-> leaves, doc |-> Doc, plain |-> Out(FALSE), app |-> Out(TRUE)]))
===========================================================================
