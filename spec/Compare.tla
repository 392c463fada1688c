------------------------------ MODULE Compare ------------------------------
(* Differences of two nested structures of dicts and lists, as a set of
   <<pointer, left, right>>.                                               *)
EXTENDS Values, Pointer

Order == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Rank(c) == IndexOf(Order, c)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  CASE i > Len(b) -> FALSE
    [] i > Len(a) -> TRUE
    [] OTHER -> IF Ch(a, i) = Ch(b, i) THEN LessFrom(a, b, i + 1) ELSE Rank(Ch(a, i)) < Rank(Ch(b, i))
ToInt(s) == IF StartsWith(s, "-") THEN 0 - ToNat(From(s, 2)) ELSE ToNat(s)
Less(x, y) == IF x[1] = "n" THEN ToInt(x[2]) < ToInt(y[2]) ELSE LessFrom(x[2], y[2], 1)
Sorted(q) == SortSeq(q, Less)

TypeName(x) == CASE x[1] = "o" -> "dict" [] x[1] = "a" -> "list" [] x[1] = "s" -> "str" [] x[1] = "n" -> IF Contains(x[2], ".") THEN "float" ELSE "int" [] x[1] = "z" -> "NoneType"
Prim(x) == x[1] \in {"s", "n"}
D(p, l, r) == {<<p, l, r>>}
Seen(ks, inc, exc) == (IF inc = {} THEN ks ELSE ks \cap inc) \ exc

RECURSIVE Cmp(_, _, _, _, _)
Cmp(x, y, p, inc, exc) ==
  CASE IsObj(x) ->
       IF ~IsObj(y) THEN D(p, S(TypeName(x)), S(TypeName(y)))
       ELSE LET kx == Seen(Keys(x), inc, exc)
                ky == Seen(Keys(y), inc, exc)
            IN {<<Compose(p, <<k>>), NULL, NULL>> : k \in (kx \ ky) \cup (ky \ kx)}
               \cup UNION {Cmp(x[2][k], y[2][k], Compose(p, <<k>>), inc, exc) : k \in kx \cap ky}
    [] IsArr(x) ->
       IF ~IsArr(y) THEN D(p, S(TypeName(x)), S(TypeName(y)))
       ELSE LET a == x[2] b == y[2] IN
            IF Len(a) # Len(b) THEN D(p, Num(ToString(Len(a))), Num(ToString(Len(b))))
            ELSE IF a = <<>> THEN {}
            ELSE IF a[1][1] # b[1][1]
                 THEN D(p, S("<class '" \o TypeName(a[1]) \o "'>"), S("<class '" \o TypeName(b[1]) \o "'>"))
            ELSE LET c == IF Prim(a[1]) THEN Sorted(a) ELSE a
                     d == IF Prim(b[1]) THEN Sorted(b) ELSE b
                 IN UNION {Cmp(c[i], d[i], Compose(p, <<NatStr(i - 1)>>), inc, exc) : i \in 1 .. Len(c)}
    [] OTHER -> IF x = y THEN {} ELSE D(p, x, y)

(* equality that does not look at the order of primitive lists or at keys left out *)
RECURSIVE Same(_, _, _, _)
Same(x, y, inc, exc) ==
  CASE IsObj(x) /\ IsObj(y) ->
         LET kx == Seen(Keys(x), inc, exc) ky == Seen(Keys(y), inc, exc)
         IN kx = ky /\ \A k \in kx : Same(x[2][k], y[2][k], inc, exc)
    [] IsArr(x) /\ IsArr(y) ->
         /\ Len(x[2]) = Len(y[2])
         /\ IF x[2] = <<>> THEN TRUE
            ELSE IF Prim(x[2][1]) /\ Prim(y[2][1])
                 THEN \A v \in Range(x[2]) \cup Range(y[2]) :
                        Cardinality({i \in 1 .. Len(x[2]) : x[2][i] = v}) = Cardinality({i \in 1 .. Len(y[2]) : y[2][i] = v})
                 ELSE \A i \in 1 .. Len(x[2]) : Same(x[2][i], y[2][i], inc, exc)
    [] OTHER -> x = y
============================================================================
