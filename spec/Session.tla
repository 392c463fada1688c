------------------------------ MODULE Session ------------------------------
(* A session: one description, loaded and upgraded any number of times.
   A handle is a tree that was obtained: its version, and the marks that the
   application hook left on it.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Versions == <<"1.2", "2.0", "3.0.0">>
Rank(v) == CHOOSE i \in 1 .. 3 : Versions[i] = v
Supported(v) == \E i \in 1 .. 3 : Versions[i] = v
(* the steps that lead from version a to version b, own version included *)
Steps(a, b) == IF Rank(a) <= Rank(b) THEN SubSeq(Versions, Rank(a), Rank(b)) ELSE <<>>
Reached(a, b) == IF Rank(a) <= Rank(b) THEN b ELSE a

(* outcome of loading a description that calls itself version v *)
LoadOk(v) == Supported(v)
Loaded(v) == [v |-> v, marks |-> <<>>]
UpOk(to) == Supported(to)
(* every step is handed to the hook, which may give back another object *)
Upgraded(h, to, replaced) ==
  [v |-> Reached(h.v, to), marks |-> IF replaced THEN h.marks \o Steps(h.v, to) ELSE h.marks]
=============================================================================
