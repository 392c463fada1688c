----------------------------- MODULE Trace_C17 -----------------------------
(* Sessions over one description (and variations of it that mean the same).
   st.hs     session -> versions of the trees obtained
   st.seen   version -> what the tree of that version is ("err": refused)
   Every result of the same version must be the same.  e.was / e.now: digests of
   the documents and of all trees obtained before, before and after the step. *)
EXTENDS TraceRun, Session, Links
tr == Traces[cur_]
TheStart(t) == [hs |-> <<>>, seen |-> <<>>, calls |-> {}, lin |-> FALSE]
SetOf(q) == {q[i] : i \in DOMAIN q}
SetF(f, k, x) == TLCEval([q \in DOMAIN f \cup {k} |-> IF q = k THEN x ELSE f[q]])
Root_ == [x \in {"1.2", "2.0", "3.0.0"} |-> CASE x = "1.2" -> "ResourceListing" [] x = "2.0" -> "Swagger" [] OTHER -> "OpenApi"]
(* what is in the tree of the version of the document: just what is written,
   references to other documents absolute from 3.0.0 on                      *)
Own(v, abs) == Shown(Gram(v), <<Root_[v]>>, tr.docs[tr.root], tr.root, abs)
(* hook calls <<place, version, kind>>: of the root those of the steps, in
   order; of other parts each once for every step the part is taken through
   (parts linked in one version are taken on to the next one from there), and
   all parts that are needed                                                 *)
RootCalls(log) == SelectSeq(log, LAMBDA c : c[1] = tr.root /\ c[2] = <<>>)
Others(log) == SelectSeq(log, LAMBDA c : ~(c[1] = tr.root /\ c[2] = <<>>))
Times(q, c) == Cardinality({i \in DOMAIN q : q[i] = c})
Parts == IF tr.v = "1.2" THEN {} ELSE {<<q[1], q[2]>> : q \in Needed(Gram(tr.v), tr.docs, {<<tr.root, <<>>, <<Root_[tr.v]>>>>})}
Covered(places, v) == \A p \in Parts : p[1] = tr.root \/ \E q \in places : q[1] = p[1] /\ q[3] = v /\ IsPrefixSeq(q[2], p[2])
TheStep(s, e) ==
  CASE e.op = "session" ->
         LET ok == e.out = <<"ok", tr.v>> IN
         [st |-> [s EXCEPT !.hs = <<tr.v>>, !.calls = {}, !.lin = FALSE],
          ok |-> ok /\ (e.val = Own(tr.v, FALSE) \/ tr.v = "1.2"), exp |-> Own(tr.v, FALSE)]
    [] OTHER ->
         LET a == s.hs[e.k]
             to == Reached(a, e.to)
             st == Steps(a, e.to)
             lin == s.lin \/ st # <<>>
             first == (tr.v = "3.0.0" /\ ~lin) \/ to \notin DOMAIN s.seen
             want == IF first THEN e.val ELSE s.seen[to]
             native == to = tr.v /\ tr.v # "1.2"
             oth == Others(e.log)
             places == s.calls \cup {<<c[1], c[2], c[3]>> : c \in SetOf(oth)}
             hookok == /\ [i \in DOMAIN RootCalls(e.log) |-> <<RootCalls(e.log)[i][3], RootCalls(e.log)[i][4]>>] = [i \in DOMAIN st |-> <<st[i], Root_[st[i]]>>]
                       /\ \A c \in SetOf(oth) :
                            /\ Times(oth, c) <= Cardinality({i \in DOMAIN st : Rank(st[i]) >= Rank(c[3])})
                            /\ c[3] = "3.0.0" => <<c[1], c[2], c[3]>> \notin s.calls
                       /\ (tr.v = "1.2" \/ st = <<>> \/ Covered(places, tr.v))
                       /\ \A c \in SetOf(oth) : c[3] = tr.v \/ <<c[1], c[2], tr.v>> \in places
         IN IF e.out[1] = "err"
            THEN [st |-> [s EXCEPT !.seen = SetF(@, to, <<"err">>)], ok |-> (first \/ s.seen[to] = <<"err">>) /\ e.was = e.now, exp |-> want]
            ELSE [st |-> [s EXCEPT !.seen = IF tr.v = "3.0.0" /\ ~lin THEN @ ELSE SetF(@, to, want), !.hs = Append(@, to), !.calls = places, !.lin = lin],
                  ok |-> /\ e.out = <<"ok", to, tr.v, to>>
                         /\ e.val = want
                         /\ native => e.val = Own(tr.v, tr.v = "3.0.0" /\ lin)
                         /\ e.was = e.now
                         /\ e.shared = 0
                         /\ hookok,
                  exp |-> <<IF e.val = want THEN "same" ELSE want, to, hookok, IF native /\ e.val # Own(tr.v, tr.v = "3.0.0" /\ lin) THEN Own(tr.v, tr.v = "3.0.0" /\ lin) ELSE <<>>>>]
=============================================================================
