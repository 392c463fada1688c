----------------------------- MODULE Trace_C06 -----------------------------
(* pairs of trees, compared in both directions at several positions *)
EXTENDS TraceRun, Diff
TheStart(t) == 0
tr == Traces[cur_]
G == Gram(tr.v)
TheStep(s, e) ==
  LET b == IF e.cls # "" THEN <<e.cls>> ELSE BAt(G, <<tr.cls>>, tr.docs[1], e.at)
      x == At(tr.docs[e.a], e.at)
      y == At(tr.docs[e.b], e.at)
      kinds == e.other = ""
      ps == IF kinds THEN TLCEval(Places(G, b, x, y, <<>>)) ELSE {<<>>}
      where == {Compose(e.base, p) : p \in ps}
      ok == IF ~kinds THEN e.out = <<"diff", e.base>>
            ELSE IF e.out[1] = "err" THEN Broken(G, b, x) \/ Broken(G, b, y)
            ELSE IF ps = {} THEN e.out[1] = "same"
            ELSE e.out[1] = "diff" /\ e.out[2] \in where
  IN [st |-> s, ok |-> ok, exp |-> <<ps = {}, where>>,
      kf |-> IF ok THEN "" ELSE IF ~kinds THEN (IF e.out = <<"diff", "">> THEN "F-CMP-PLACE" ELSE "")
             ELSE Cause(G, b, x, y, IF e.out[1] = "same" THEN Yes ELSE e.out, e.base)]
=============================================================================
