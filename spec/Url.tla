-------------------------------- MODULE Url --------------------------------
(* Addresses of documents, references, and how one resolves against another *)
EXTENDS Pointer

(* ---- references: document part and fragment ---- *)
HasHash(r) == Contains(r, "#")
DocPart(r) == IF HasHash(r) THEN Upto(r, IndexOf(r, "#") - 1) ELSE r
Fragment(r) == IF HasHash(r) THEN From(r, IndexOf(r, "#") + 1) ELSE ""

(* ---- schemes ---- *)
SchemeEnd(u) == IndexOf(u, "://")
IsAbs(u) == SchemeEnd(u) > 1 /\ ~Contains(Upto(u, SchemeEnd(u)), "/")
RootLen(u) ==       (* length of scheme://authority *)
  LET s == IndexFrom(u, "/", SchemeEnd(u) + 3)
      q == IndexFrom(u, "?", SchemeEnd(u) + 3)
      e == IF s = 0 \/ (q # 0 /\ q < s) THEN q ELSE s
  IN IF e = 0 THEN Len(u) ELSE e - 1
Root(u) == Upto(u, RootLen(u))
AfterRoot(u) == From(u, RootLen(u) + 1)      (* path, and possibly ?query *)
PathOf(u) == LET p == AfterRoot(u) IN IF Contains(p, "?") THEN Upto(p, IndexOf(p, "?") - 1) ELSE p
QueryOf(u) == LET p == AfterRoot(u) IN IF Contains(p, "?") THEN From(p, IndexOf(p, "?")) ELSE ""

(* ---- local paths ---- *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Unreserved == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~/"
(* the few characters beyond ASCII that drivers use *)
WideCode(c) == CASE c = "é" -> "%C3%A9" [] c = "漢" -> "%E6%BC%A2" [] c = "字" -> "%E5%AD%97" [] c = "ü" -> "%C3%BC" [] OTHER -> "%??"
QuoteCh(c) ==
  IF Contains(Unreserved, c) THEN c
  ELSE LET i == IndexOf(Printable, c) IN
       IF i = 0 THEN WideCode(c)
       ELSE "%" \o Hex[((i + 31) \div 16) + 1] \o Hex[((i + 31) % 16) + 1]
RECURSIVE QuoteFrom(_, _)
QuoteFrom(s, i) == IF i > Len(s) THEN "" ELSE QuoteCh(Ch(s, i)) \o QuoteFrom(s, i + 1)
Quote(s) == QuoteFrom(s, 1)

RECURSIVE DotFold(_, _, _)
(* remove ".", ".." (and empty segments if squeeze) from segments *)
DotFold(segs, acc, squeeze) ==
  IF segs = <<>> THEN acc
  ELSE LET h == Head(segs) IN
       DotFold(Tail(segs),
               IF h = "." \/ (squeeze /\ h = "") THEN acc
               ELSE IF h = ".." THEN (IF acc = <<>> THEN acc ELSE FrontOf(acc))
               ELSE Append(acc, h), squeeze)

AbsPath(p, cwd) ==
  "/" \o Join(DotFold(Split(IF StartsWith(p, "/") THEN p ELSE cwd \o "/" \o p, "/"), <<>>, TRUE), "/")
FileUrl(abs) == "file://" \o Quote(abs)

(* ---- address normalisation; <<"err">> when it is not an address ---- *)
NormUrl(u, cwd) ==
  IF u = "" THEN <<"ok", "">>
  ELSE IF IsAbs(u) THEN <<"ok", u>>
  ELSE IF StartsWith(u, "//") \/ StartsWith(u, "?") THEN <<"err">>
  ELSE <<"ok", FileUrl(AbsPath(u, cwd))>>

(* ---- splitting a reference ---- *)
JrSplit(r, cwd) ==
  LET d == DocPart(r)
      n == NormUrl(IF d = "//" THEN "" ELSE d, cwd)
  IN IF n[1] = "err" THEN <<"err">> ELSE <<"ok", <<n[2], "#" \o Fragment(r)>>>>

(* ---- resolving a reference found in document base ("" = unknown) ---- *)
Folder(path) == LET i == LastIndexOf(path, "/") IN IF i = 0 THEN "" ELSE Upto(path, i - 1)
Resolve(r, base) ==
  LET d == DocPart(r)
      f == Fragment(r)
      tail == IF f = "" THEN "" ELSE "#" \o f
  IN IF d = "" THEN (IF base = "" THEN "#" \o f ELSE base \o tail)
     ELSE IF IsAbs(d) \/ base = "" THEN d \o tail
     ELSE LET raw == IF StartsWith(d, "/") THEN d ELSE Folder(PathOf(base)) \o "/" \o d
              segs == DropSeq(Split(raw, "/"), 1)
          IN Root(base) \o "/" \o Join(DotFold(segs, <<>>, FALSE), "/") \o QueryOf(base) \o tail

(* ---- folder of a document, joining a name to a folder ---- *)
UrlDirname(u) ==
  IF EndsWith(PathOf(u), "json") \/ EndsWith(PathOf(u), "yaml") \/ EndsWith(PathOf(u), "yml")
  THEN LET f == Folder(PathOf(u))
       IN Root(u) \o (IF f = "" /\ StartsWith(PathOf(u), "/") THEN "/" ELSE f) \o QueryOf(u)
  ELSE u
UrlJoin(u, name) ==
  LET p == PathOf(u) IN
  Root(u) \o (IF EndsWith(p, "/") THEN p \o (IF StartsWith(name, "/") THEN From(name, 2) ELSE name)
              ELSE p \o (IF StartsWith(name, "/") THEN name ELSE "/" \o name)) \o QueryOf(u)
=============================================================================
