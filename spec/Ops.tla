--------------------------------- MODULE Ops ---------------------------------
(* What comparing, ordering, hashing, cloning, defaulting and parsing through a shape has to give: what
   the type's own implementation gives. Derived implementations go by fields and variants; the others are
   written down here. *)
EXTENDS Data

Flip(o) == CASE o = "lt" -> "gt" [] o = "gt" -> "lt" [] OTHER -> o
NumC(a, b) == IF a = b THEN "eq" ELSE IF a < b THEN "lt" ELSE "gt"
RECURSIVE SeqC(_, _)
SeqC(a, b) ==        \* sequences of numbers
  IF a = <<>> THEN (IF b = <<>> THEN "eq" ELSE "lt") ELSE IF b = <<>> THEN "gt"
  ELSE IF Head(a) # Head(b) THEN NumC(Head(a), Head(b)) ELSE SeqC(Tail(a), Tail(b))
DigC(a, b) == IF a = b THEN "eq" ELSE IF DigLt(a, b) THEN "lt" ELSE "gt"
BigC(a, b) == LET c == Cmp(a, b) IN NumC(c, 0)

(* m * 2^e against n * 2^f, natural numbers: by the place of the highest bit first *)
RECURSIVE Bits(_, _)
Bits(n, k) == IF Cmp(n, Pow2(k)) < 0 THEN k ELSE Bits(n, k + 1)
MagC(x, y) ==
  LET m == FromDigits(x.m)  n == FromDigits(y.m) IN
  IF x.m = <<0>> \/ y.m = <<0>> THEN BigC(m, n)
  ELSE LET hx == Bits(m, 0) + x.e  hy == Bits(n, 0) + y.e IN
       IF hx # hy THEN NumC(hx, hy)
       ELSE IF x.e >= y.e THEN BigC(Mul(m, Pow2(x.e - y.e)), n) ELSE BigC(m, Mul(n, Pow2(y.e - x.e)))
FltC(a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN "un"
  ELSE LET za == a.c = "fin" /\ a.m = <<0>>  zb == b.c = "fin" /\ b.m = <<0>>
           sa == IF za THEN 0 ELSE IF a.g THEN 0 - 1 ELSE 1
           sb == IF zb THEN 0 ELSE IF b.g THEN 0 - 1 ELSE 1
       IN IF sa # sb THEN NumC(sa, sb)
          ELSE IF sa = 0 THEN "eq"
          ELSE LET c == IF a.c = "inf" THEN (IF b.c = "inf" THEN "eq" ELSE "gt") ELSE IF b.c = "inf" THEN "lt" ELSE MagC(a, b)
               IN IF sa < 0 THEN Flip(c) ELSE c
IntC(a, b) == IF a = b THEN "eq" ELSE IF IntLe(a, b) THEN "lt" ELSE "gt"

(* paths go by their parts *)
RECURSIVE Cut(_, _)
Cut(c, acc) == IF c = <<>> THEN <<acc>> ELSE IF Head(c) = 47 THEN <<acc>> \o Cut(Tail(c), <<>>) ELSE Cut(Tail(c), Append(acc, Head(c)))
Parts(c) ==
  LET ps == Cut(c, <<>>)
      abs == c # <<>> /\ c[1] = 47
      part(i) == IF ps[i] = <<>> THEN <<>>
                 ELSE IF ps[i] = <<46>> THEN (IF i = 1 THEN << <<2>> >> ELSE <<>>)
                 ELSE IF ps[i] = <<46, 46>> THEN << <<3>> >> ELSE << <<4>> \o ps[i] >>
  IN (IF abs THEN << <<1>> >> ELSE <<>>) \o Concat([i \in 1..Len(ps) |-> part(i)])
RECURSIVE PartsC(_, _)
PartsC(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN "eq" ELSE "lt") ELSE IF b = <<>> THEN "gt"
  ELSE IF Head(a) # Head(b) THEN SeqC(Head(a), Head(b)) ELSE PartsC(Tail(a), Tail(b))

IpC(a, b) == IF a.n # b.n THEN NumC(a.n, b.n) ELSE SeqC(a.o, b.o)
SockC(a, b) ==
  LET i == IpC(a.ip, b.ip) IN IF i # "eq" THEN i ELSE IF a.p # b.p THEN NumC(a.p, b.p) ELSE NumC(a.z, b.z)
ScalarC(s, a, b) ==
  CASE s \in {"f32", "f64"} -> FltC(a, b)
    [] s \in Ints -> IntC(a, b)
    [] s \in {"String", "Str", "CowStr"} -> SeqC(a.c, b.c)
    [] s \in {"PathBuf", "PathRef"} -> PartsC(Parts(a.c), Parts(b.c))
    [] s = "bool" -> IF a.b = b.b THEN "eq" ELSE IF b.b THEN "lt" ELSE "gt"
    [] s = "char" -> NumC(a.u, b.u)
    [] s \in {"Ipv4Addr", "Ipv6Addr", "IpAddr"} -> IpC(a, b)
    [] s = "SocketAddr" -> SockC(a, b)
    [] s = "Tk" -> NumC(a.id, b.id)
    [] OTHER -> "eq"             \* unit, PhantomData

RECURSIVE CmpV(_, _, _), CmpSeq(_, _, _), CmpFields(_, _, _), CmpPairs(_, _, _, _), Sorted(_, _)
(* lexicographic: the first pair that is not equal decides, be it unordered *)
CmpSeq(t, a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN "eq" ELSE "lt") ELSE IF b = <<>> THEN "gt"
  ELSE LET c == CmpV(t, Head(a), Head(b)) IN IF c = "eq" THEN CmpSeq(t, Tail(a), Tail(b)) ELSE c
CmpFields(fs, a, b) ==
  IF fs = <<>> THEN "eq"
  ELSE LET c == CmpV(Head(fs).sh, Head(a), Head(b)) IN IF c = "eq" THEN CmpFields(Tail(fs), Tail(a), Tail(b)) ELSE c
CmpPairs(kt, vt, a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN "eq" ELSE "lt") ELSE IF b = <<>> THEN "gt"
  ELSE LET c == CmpV(kt, Head(a)[1], Head(b)[1]) IN
       IF c # "eq" THEN c
       ELSE LET d == CmpV(vt, Head(a)[2], Head(b)[2]) IN IF d = "eq" THEN CmpPairs(kt, vt, Tail(a), Tail(b)) ELSE d
(* the entries of an ordered map *)
Sorted(kt, e) ==
  IF e = <<>> THEN <<>>
  ELSE LET k == CHOOSE i \in 1..Len(e) : \A j \in 1..Len(e) : j # i => CmpV(kt, e[i][1], e[j][1]) = "lt"
       IN <<e[k]>> \o Sorted(kt, SubSeq(e, 1, k - 1) \o SubSeq(e, k + 1, Len(e)))
CmpV(sh, a, b) ==
  LET S == Shapes[sh] IN
  CASE K(sh) = "scalar" -> ScalarC(S.s, a, b)
    [] K(sh) \in {"list", "slice", "array"} -> CmpSeq(S.t, a.e, b.e)
    [] K(sh) = "option" -> IF a.t # b.t THEN (IF a.t = "none" THEN "lt" ELSE "gt") ELSE IF a.t = "none" THEN "eq" ELSE CmpV(S.t, a.x, b.x)
    [] K(sh) = "arc" -> CmpV(S.t, a.x, b.x)
    [] K(sh) = "map" -> CmpPairs(S.kt, S.vt, Sorted(S.kt, a.e), Sorted(S.kt, b.e))
    [] K(sh) = "struct" -> IF S.name = "Own1" THEN IntC(b.f[1], a.f[1]) ELSE CmpFields(S.f, a.f, b.f)
    [] K(sh) = "enum" -> IF a.i # b.i THEN DigC(S.vs[a.i].disc, S.vs[b.i].disc) ELSE CmpFields(S.vs[a.i].f, a.f, b.f)

RECURSIVE EqV(_, _, _)
EqSeq(t, a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : EqV(t, a[i], b[i])
EqFields(fs, a, b) == \A i \in DOMAIN fs : EqV(fs[i].sh, a[i], b[i])
EqV(sh, a, b) ==
  LET S == Shapes[sh] IN
  CASE K(sh) = "scalar" -> ScalarC(S.s, a, b) = "eq"
    [] K(sh) \in {"list", "slice", "array"} -> EqSeq(S.t, a.e, b.e)
    [] K(sh) = "option" -> a.t = b.t /\ (a.t = "some" => EqV(S.t, a.x, b.x))
    [] K(sh) = "arc" -> EqV(S.t, a.x, b.x)
    [] K(sh) = "map" -> Len(a.e) = Len(b.e) /\ \A i \in DOMAIN a.e : \E j \in DOMAIN b.e : EqV(S.kt, a.e[i][1], b.e[j][1]) /\ EqV(S.vt, a.e[i][2], b.e[j][2])
    [] K(sh) = "struct" -> IF S.name = "Own1" THEN a.f[1] = b.f[1] ELSE EqFields(S.f, a.f, b.f)
    [] K(sh) = "enum" -> a.i = b.i /\ EqFields(S.vs[a.i].f, a.f, b.f)

(* parsing; options take what their contents take *)
RECURSIVE Parse(_, _)
Parse(sh, c) ==
  CASE K(sh) = "option" -> Map1(Parse(Shapes[sh].t, c), Some)
    [] Scalar(sh) \in {"String", "bool", "char", "f32", "f64"} \cup Ints -> FromText(sh, c)
    [] Scalar(sh) = "Tk" -> IF c = <<55>> THEN Ok_(Tk(0)) ELSE No_
    [] Scalar(sh) = "PathBuf" -> Ok_(Str(c))
    [] OTHER -> Any_

(* the tracked values of its own made indistinguishable (maps are cloned in any order) *)
RECURSIVE OwnZero(_)
OwnZero(v) ==
  CASE v.t = "tk" -> Tk(0)
    [] v.t = "some" -> [v EXCEPT !.x = OwnZero(@)]
    [] v.t \in {"list", "arr"} -> [v EXCEPT !.e = [i \in DOMAIN @ |-> OwnZero(v.e[i])]]
    [] v.t = "map" -> [v EXCEPT !.e = [i \in DOMAIN @ |-> <<OwnZero(v.e[i][1]), OwnZero(v.e[i][2])>>]]
    [] v.t \in {"st", "en"} -> [v EXCEPT !.f = [i \in DOMAIN @ |-> OwnZero(v.f[i])]]
    [] OTHER -> v
----------------------------------------------------------------------------
(* what is wrong with an outcome o of the operations on values v and w of type sh *)
Say(ok, what) == IF ok THEN {} ELSE {what}
Offered == <<"Clone", "Copy", "Debug", "Default", "Display", "Eq", "FromStr", "Hash", "Ord", "PartialEq", "PartialOrd">>
Has(o, k) == k \in DOMAIN o
Wrong(c, o) ==
  LET sh == c.sh
      v == Renew(c.v, 1)
      w == Renew(c.w, 1 + Len(Toks(v)))
      n == 1 + Len(Toks(v)) + Len(Toks(w))
      eq(a, b) == EqV(sh, a, b)
      cmp(a, b) == CmpV(sh, a, b)
      offers == SelectSeq(Offered, LAMBDA t : Offers(sh, t))
  IN Say(Same(o.v, v) /\ Same(o.w, w), "values")
     \cup Say(o.offers = offers, "offered")
     \cup (IF Has(o, "eq") THEN Say(o.eq = <<eq(v, w), eq(w, v), eq(v, v), eq(w, w)>>, "eq") \cup Say(o.peek_eq = <<TRUE, TRUE, eq(v, w), eq(w, v)>>, "eq of peeks") ELSE {})
     \cup (IF Has(o, "pcmp") THEN Say(o.pcmp = <<cmp(v, w), cmp(w, v), cmp(v, v)>>, "partial_cmp") \cup Say(o.peek_cmp = <<TRUE, TRUE>>, "partial_cmp of peeks") ELSE {})
     \cup (IF Has(o, "cmp") THEN Say(o.cmp = <<cmp(v, w), cmp(w, v), cmp(v, v)>>, "cmp") ELSE {})
     \cup (IF Has(o, "hash") THEN Say(o.hash[2], "hash differs from itself") \cup Say((Has(o, "eq") /\ eq(v, w)) => o.hash[1], "equal values hash differently") ELSE {})
     \cup (IF Has(o, "clone") THEN LET ids == OwnToks(o.clone)  k == Len(OwnToks(v)) IN
             Say(Same(OwnZero(o.clone), OwnZero(v)) /\ Len(ids) = k /\ {ids[i] : i \in 1..k} = n..(n + k - 1), "clone") ELSE {})
     \cup (IF Has(o, "default") THEN Say(Same(o.default, Renew(DefaultOf(sh), n + (IF Has(o, "clone") THEN Len(OwnToks(v)) ELSE 0))), "default") ELSE {})
     \cup (IF Has(o, "parse") THEN UNION {LET e == Parse(sh, c.parse[i])  g == o.parse[i] IN
             Say(Agrees(e, IF g.r = 1 THEN [g EXCEPT !.v = Renew(@, 0)] ELSE g), "parse") : i \in DOMAIN c.parse} ELSE {})
=============================================================================
