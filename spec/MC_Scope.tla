----------------------------- MODULE MC_Scope -----------------------------
(* every set of up to MaxKeys scoped keys, every lookup *)
EXTENDS Scope, Json
CONSTANTS Names, MaxLen, MaxKeys, Seps
VARIABLES keys, sep
Seqs == UNION {[1 .. n -> Names] : n \in 1 .. MaxLen}
Init == keys = {} /\ sep \in Seps
Next == Cardinality(keys) < MaxKeys /\ \E k \in Seqs \ keys : keys' = keys \cup {k} /\ UNCHANGED sep
J(q) == Join(q, sep)
Strs_ == {J(k) : k \in keys}
EndsSeq(k, q) == Len(k) > Len(q) /\ SubSeq(k, Len(k) - Len(q) + 1, Len(k)) = q
(* the same by names *)
BySeq(q) == IF q \in keys THEN <<"hit", J(q)>>
            ELSE LET c == {k \in keys : EndsSeq(k, q)} IN
                 IF c = {} THEN <<"missing">> ELSE IF Cardinality(c) = 1 THEN <<"hit", J(CHOOSE k \in c : TRUE)>> ELSE <<"ambiguous">>
WholeNames == \A q \in Seqs : Look(Strs_, J(q), sep) = BySeq(q)
Inverse == \A q \in Seqs : SplitScope(S(J(q)), sep) = [i \in 1 .. Len(q) |-> S(q[i])] /\ ComposeAll(q, sep, Len(q)) = S(J(q))
Emit == PrintT("@D " \o ToJson([sep |-> sep, keys |-> Strs_, look |-> {<<q, J(q), Look(Strs_, J(q), sep)>> : q \in Seqs}]))
===========================================================================
