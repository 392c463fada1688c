------------------------------- MODULE Fetch -------------------------------
(* Where documents come from: the redirect hook, the copies that are kept,
   ways of fetching, files in folders.

   st.w     address -> content        what a fetch of an address brings now
   st.f     path -> content           files that exist now
   st.kept  url -> value              documents loaded so far
   st.q, st.qd                        a queue of documents handed over
   content: <<"v", value>> or <<"bad">> (missing, malformed, not text, ...)  *)
EXTENDS Url, Values

BAD == <<"bad">>
Usable(c) == c[1] = "v" /\ Truthy(c[2])
At_(f, k) == IF k \in DOMAIN f THEN f[k] ELSE BAD
Set(f, k, v) == TLCEval([q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]])

(* ---- local addresses ---- *)
Wides == {"é", "漢", "字", "ü"}
RECURSIVE UnquoteFrom(_, _)
UnquoteFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) # "%" THEN Ch(s, i) \o UnquoteFrom(s, i + 1)
  ELSE LET is(c) == LET x == WideCode(c) IN i + Len(x) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(x) - 1) = x
           code(k) == "%" \o Hex[((k + 31) \div 16) + 1] \o Hex[((k + 31) % 16) + 1]
           ks == {k \in 1 .. Len(Printable) : i + 2 <= Len(s) /\ SubSeq(s, i, i + 2) = code(k)}
       IN IF \E c \in Wides : is(c)
          THEN LET c == CHOOSE w \in Wides : is(w) IN c \o UnquoteFrom(s, i + Len(WideCode(c)))
          ELSE IF ks # {} THEN Ch(Printable, CHOOSE k \in ks : TRUE) \o UnquoteFrom(s, i + 3)
          ELSE "%" \o UnquoteFrom(s, i + 1)
IsLocal(a) == StartsWith(a, "file://")
LocalPath(a) == UnquoteFrom(From(a, 8), 1)

KnownNames == <<"resource_list.json", "swagger.json", "swagger.yaml", "swagger.yml">>
Within(p, n) == IF EndsWith(p, "/") THEN p \o n ELSE p \o "/" \o n
RECURSIVE Known(_, _, _)
Known(fs, p, i) ==
  IF i > Len(KnownNames) THEN ""
  ELSE IF EndsWith(p, KnownNames[i]) THEN p
  ELSE IF Within(p, KnownNames[i]) \in fs THEN Within(p, KnownNames[i])
  ELSE Known(fs, p, i + 1)
(* the file that is read for a path; "" when there is none *)
LocalChoice(fs, p) ==
  LET k == Known(fs, p, 1) IN
  IF k # "" THEN k
  ELSE IF \E e \in {".json", ".yaml", ".yml"} : EndsWith(p, e) THEN p
  ELSE IF p \o ".json" \in fs THEN p \o ".json"
  ELSE IF p \o ".yaml" \in fs THEN p \o ".yaml"
  ELSE ""

(* ---- one request: [ok, val, st, log] ---- *)
Fetch1(st, addr, via) ==
  CASE via = "queue" -> IF st.q = <<>> THEN BAD ELSE At_(st.qd, Head(st.q))
    [] via = "default" /\ IsLocal(addr) ->
         LET c == LocalChoice(DOMAIN st.f, LocalPath(addr)) IN IF c = "" THEN BAD ELSE At_(st.f, c)
    [] OTHER -> At_(st.w, addr)
Log(addr, via) == IF via = "queue" \/ (via = "default" /\ IsLocal(addr)) THEN <<>> ELSE <<<<via, addr>>>>

Request(st, url, addr, names, via) ==
  LET old == url \in DOMAIN st.kept
      got == IF old THEN <<"v", st.kept[url]>> ELSE Fetch1(st, addr, via)
      good == Usable(got)
      s1 == IF old \/ ~good THEN st ELSE [st EXCEPT !.kept = Set(@, url, got[2])]
      s2 == IF ~old /\ via = "queue" /\ st.q # <<>> THEN [s1 EXCEPT !.q = Tail(@)] ELSE s1
      v == IF good THEN At(got[2], names) ELSE MISSING
  IN [st |-> s2, log |-> IF old THEN <<>> ELSE Log(addr, via),
      out |-> IF v = MISSING THEN <<"err">> ELSE <<"ok", v>>]
=============================================================================
