---------------------------- MODULE MC_Pointer ----------------------------
(* All lists of names over a small hostile alphabet, built character by
   character.  Checks that escaping is a bijection on pointers with a root
   and prints every case with its composed form.                          *)
EXTENDS Pointer, Json
CONSTANTS Alphabet, MaxChars, MaxToks, Bases
VARIABLES toks, base

Init == toks = <<>> /\ base \in Bases
Size == Len(Join(toks, ""))
AddTok == Len(toks) < MaxToks /\ toks' = Append(toks, "") /\ UNCHANGED base
AddChar == /\ toks # <<>> /\ Size < MaxChars
           /\ \E c \in Alphabet : toks' = [toks EXCEPT ![Len(toks)] = @ \o c]
           /\ UNCHANGED base
Next == AddTok \/ AddChar

p == Compose(base, toks)
RoundTrip == base # "" => SplitPtr(p) = SplitPtr(base) \o toks
Injective == base # "" => \A i \in 1 .. Len(toks) : DecTok(EncTok(toks[i])) = toks[i] /\ ~Contains(EncTok(toks[i]), "/")
KeepsBase == base # "" => StartsWith(p, base)
Emit == PrintT("@CASE " \o ToJson([toks |-> toks, base |-> base, ptr |-> p, parts |-> SplitPtr(p)]))
===========================================================================
