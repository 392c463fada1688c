---------------------------- MODULE Trace_Links ----------------------------
(* What was found after loading: 'refs' every reference with the object it is
   linked to, 'sights' which object was seen at which place, 'pieces' the
   content, 'finals' the final form of every path item.
   Part: "links", "deref" or "final".                                       *)
EXTENDS TraceRun, Links
CONSTANT Part
TheStart(tr) == 0
tr == Traces[cur_]
G == Gram(tr.v)
ds == tr.docs
abs == tr.v = "3.0.0"
SetOf(q) == {q[i] : i \in DOMAIN q}

Exp(pieces) ==
  LET all == AllRefs(G, ds, pieces) IN
  {<<n.p, Target(n.p, n.r)>> : n \in all}
CheckLinks(o, pieces) ==
  LET all == AllRefs(G, ds, pieces)
      want == {<<n.p, ShownRef(n.r, n.p[1], abs), Target(n.p, n.r)>> : n \in all}
      got == {<<r.p, r.ref, r.norm>> : r \in SetOf(o.refs)}
      links == {<<r.norm, r.id>> : r \in SetOf(o.refs)}
      seen == {<<s.p, s.id>> : s \in SetOf(o.sights)} \cup links
      kinds == {<<s.p, s.cls>> : s \in SetOf(o.sights)}
      kind(q) == LET e == Eff(q[3], Val(ds, <<q[1], q[2]>>)) IN <<<<q[1], q[2]>>, e[1]>>
      wrong == {q \in SetOf(o.pieces) : \A w \in pieces : <<w[1], w[2]>> = q.p => q.val # Shown(G, w[3], Val(ds, q.p), w[1], abs)}
      missing == {w \in pieces : \A s \in SetOf(o.sights) : s.p # <<w[1], w[2]>>}
      lost == want \ got
      extra == got \ want
      (* one object is at one place; all references to a place lead to one
         object; there is one object for a place of the main document        *)
      twice == {a \in seen : \E b \in seen : a[2] = b[2] /\ a[1] # b[1]}
               \cup {a \in links : \E b \in links : a[1] = b[1] /\ a[2] # b[2]}
               \cup {a \in seen : a[1][1] = tr.root /\ \E b \in seen : a[1] = b[1] /\ a[2] # b[2]}
      ids(p) == {s[2] : s \in {w \in seen : w[1] = p}}
      unfound == {a \in SetOf(o.asked) : a.id \notin ids(Target(<<tr.root, <<>>>>, a.ref)) \/ a.at # Target(<<tr.root, <<>>>>, a.ref)}
      badkind == {q \in pieces : kind(q) \notin kinds}
  IN [ok |-> want = got /\ twice = {} /\ wrong = {} /\ missing = {} /\ badkind = {} /\ unfound = {},
      exp |-> [unfound |-> unfound, lost |-> lost, extra |-> extra, twice |-> twice, wrong |-> {q.p : q \in wrong}, missing |-> missing, kind |-> {kind(q) : q \in badkind}]]
CheckDeref(o, pieces) ==
  LET idat(p) == {s.id : s \in {w \in SetOf(o.sights) : w.p = p}}
      okref(r) == IF Cyclic(ds, r.p) THEN r.end = <<"err", "CycleDetectionError">>
                  ELSE r.end[1] = "ok" /\ r.end[2] \in idat(End(ds, r.p))
      bad == {r \in SetOf(o.refs) : ~okref(r)}
      lost == {n.p : n \in AllRefs(G, ds, pieces)} \ {r.p : r \in SetOf(o.refs)}
      (* two chains followed with one guard: no object may be met twice; maps
         (callbacks) are compared by content there, which says nothing       *)
      mapat(p) == \E s \in SetOf(o.sights) : s.p = p /\ s.cls = "map"
      okjoint(j) == IF ~Cyclic(ds, j.q) /\ mapat(End(ds, j.q)) THEN TRUE
                    ELSE IF Cyclic(ds, j.q) \/ Range(ChainOf(ds, j.p)) \cap Range(ChainOf(ds, j.q)) # {}
                    THEN j.end = <<"err", "CycleDetectionError">>
                    ELSE j.end[1] = "ok" /\ j.end[2] \in idat(End(ds, j.q))
      met == {j \in SetOf(o.joint) : ~okjoint(j)}
  IN [ok |-> bad = {} /\ lost = {} /\ met = {}, exp |-> [met |-> met, bad |-> {<<r.p, ChainOf(ds, r.p)>> : r \in bad}, lost |-> lost]]
FinalOf(p) ==
  Obj(TLCEval([k \in {c \in Childs(G) : Holder(G, ds, p, c) # <<>>} |->
     LET h == Holder(G, ds, p, k) IN Shown(G, G["PathItem"].c[k], Val(ds, h)[2][k], h[1], abs)]))
CheckFinal(o) ==
  LET okf(f) == /\ f.out[1] = "ok"
                /\ f.out[2] = FinalOf(f.p)
                /\ RefText(Val(ds, f.p)) = "" => f.own
      bad == {f \in SetOf(o.finals) : ~okf(f)}
  IN [ok |-> bad = {} /\ \A q \in SetOf(o.pieces) : q.p[2] = <<>> => q.val = Shown(G, tr.b, Val(ds, q.p), q.p[1], abs),
      exp |-> {<<f.p, FinalOf(f.p)>> : f \in bad}]
TheStep(s, e) ==
  LET start == {<<q[1], q[2], q[3]>> : q \in SetOf(tr.start)}
      pieces == Needed(G, ds, start)
  IN IF Dangling(ds, pieces) THEN [st |-> s, ok |-> e.out[1] = "err", exp |-> "refused"]
     ELSE IF e.out[1] # "ok" THEN [st |-> s, ok |-> FALSE, exp |-> "linked"]
     ELSE LET r == CASE Part = "links" -> CheckLinks(e.out[2], pieces)
                     [] Part = "deref" -> CheckDeref(e.out[2], pieces)
                     [] OTHER -> CheckFinal(e.out[2])
          IN [st |-> s, ok |-> r.ok, exp |-> r.exp]
===========================================================================
