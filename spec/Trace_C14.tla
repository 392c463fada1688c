----------------------------- MODULE Trace_C14 -----------------------------
(* a 1.2 description upgraded to 2.0 and further to 3.0.0 *)
EXTENDS TraceRun, Upgrade12
TheStart(tr) == 0
docs == Traces[cur_].docs
root == Traces[cur_].root
sep == Traces[cur_].sep

(* order of security requirements, of supertypes, and empty scopes do not matter,
   neither do an empty list of required fields, or of security as nothing is required by default *)
RECURSIVE Canon(_)
Canon(x) ==
  CASE IsArr(x) -> Arr([i \in 1 .. Len(x[2]) |-> Canon(x[2][i])])
    [] IsObj(x) -> Obj(TLCEval([k \in {q \in Keys(x) : ~(q = "scopes" /\ x[2][q] = EMPTYO) /\ ~(q \in {"security", "required"} /\ x[2][q] = EMPTYA)} |->
          IF k \in {"security", "allOf"} /\ IsArr(x[2][k]) THEN <<"set", {Canon(x[2][k][2][i]) : i \in 1 .. Len(x[2][k][2])}, Len(x[2][k][2])>>
          ELSE Canon(x[2][k])]))
    [] OTHER -> x
TheStep(s, e) ==
  LET bad == Refused12(docs, root, sep)
      up == Up12(docs, root, sep)
      ds == [u \in {root} |-> up]
  IN IF Odd12(docs, root, sep) THEN [st |-> s, ok |-> TRUE, exp |-> NONE]
     ELSE IF bad THEN [st |-> s, ok |-> e.out[1] = "err", exp |-> "refused"]
     ELSE IF e.op = "up12" THEN [st |-> s, ok |-> e.out[1] = "ok" /\ Canon(e.out[2]) = Canon(up), exp |-> up]
     ELSE IF Mixed(ds, root) THEN [st |-> s, ok |-> TRUE, exp |-> NONE]
     ELSE IF Refused(ds, root) THEN [st |-> s, ok |-> e.out[1] = "err", exp |-> "refused"]
     ELSE LET w == Up20(ds, root) IN [st |-> s, ok |-> e.out[1] = "ok" /\ Canon(e.out[2]) = Canon(w), exp |-> w]
===========================================================================
