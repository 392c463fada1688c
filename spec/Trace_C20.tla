----------------------------- MODULE Trace_C20 -----------------------------
(* The same description written in several ways.  tr.docs are the documents;
   every event tells what was obtained from one way of writing them:
     val    what the loaded tree holds          links  what it is linked to
     own    what it holds when prepared at its own version
     up     what it is upgraded to, by version
   The ways of writing may not matter at all.                               *)
EXTENDS TraceRun, Links
tr == Traces[cur_]
TheStart(t) == <<>>
Root_ == [x \in {"1.2", "2.0", "3.0.0"} |-> CASE x = "1.2" -> "ResourceListing" [] x = "2.0" -> "Swagger" [] OTHER -> "OpenApi"]
Own == Shown(Gram(tr.v), <<Root_[tr.v]>>, tr.docs[tr.root], tr.root, FALSE)
(* when prepared at its own version, only references to other documents are written in full *)
Prep == IF tr.v = "1.2" THEN <<"z">> ELSE Shown(Gram(tr.v), <<Root_[tr.v]>>, tr.docs[tr.root], tr.root, tr.v = "3.0.0")
(* references to what does not exist *)
Lost == tr.v # "1.2" /\ Dangling(tr.docs, Needed(Gram(tr.v), tr.docs, {<<tr.root, <<>>, <<Root_[tr.v]>>>>}))
TheStep(s, e) ==
  LET first == s = <<>>
      want == IF first THEN Own ELSE s.val
      good == IF e.out = "ok" THEN e.val = want /\ e.own = (IF first THEN Prep ELSE s.own) /\ (first \/ (e.links = s.links /\ e.up = s.up))
              ELSE IF first THEN e.out = "err" /\ Lost ELSE e.out = s.out
  IN [st |-> IF first THEN [out |-> e.out, val |-> e.val, own |-> e.own, links |-> e.links, up |-> e.up] ELSE s,
      ok |-> good, exp |-> IF first THEN want ELSE <<s.out, s.links, s.up, IF e.val = want THEN <<>> ELSE want>>]
=============================================================================
