------------------------------ MODULE MC_Url ------------------------------
(* Every relative reference built segment by segment from ".", ".." and
   names, against base documents at several depths.                       *)
EXTENDS Url, Json
CONSTANTS Bases, Segs, Names_, MaxSegs, Frags
VARIABLES segs, lead, base, frag

Init == segs = <<>> /\ lead \in {"", "/"} /\ base \in Bases /\ frag \in Frags
Next == Len(segs) < MaxSegs /\ \E s \in Segs : segs' = Append(segs, s) /\ UNCHANGED <<lead, base, frag>>

(* a reference ends in the name of a file *)
Doc(f) == lead \o Join(Append(segs, f), "/")
Refs == {Doc(f) \o frag : f \in Names_}
Out(r) == Resolve(r, base)

Absolute == \A r \in Refs : IsAbs(Out(r)) /\ Root(Out(r)) = Root(base)
NoDots == \A r \in Refs : \A x \in Range(Split(PathOf(DocPart(Out(r))), "/")) : x # "." /\ x # ".."
Idempotent == \A r \in Refs : \A b \in Bases : Resolve(Out(r), b) = Out(r)
KeepsFragment == \A r \in Refs : Fragment(Out(r)) = Fragment(r)
SameDocument == Resolve("#/x", base) = base \o "#/x" /\ Resolve("", base) = base
(* names survive: the last name of the reference is the last name of the result *)
KeepsName == \A f \in Names_ : EndsWith(DocPart(Resolve(Doc(f), base)), "/" \o f)
Emit == \A r \in Refs : PrintT("@CASE " \o ToJson([ref |-> r, base |-> base, out |-> Out(r)]))
===========================================================================
